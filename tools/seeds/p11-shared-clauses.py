PROPERTY = 'P11'
NEEDS = 'two requests, one is rewritten while the other waits for the backend'
BREAKS = 'the clause rewriters are kept and reset for each request: the answer of the first is decrypted as the columns of the second'
EDITS = [('scheduler/handers/clause/sql_clause.py', '''class Clause(object):
''', '''handlers = {}


class Clause(object):
'''), ('scheduler/handers/clause/sql_clause.py', '''                setattr(self, key, value(self.db_meta))
''', '''                # built once, started afresh for each query
                handler = handlers.setdefault(key, value(self.db_meta))
                handler.__init__(self.db_meta)
                setattr(self, key, handler)
''')]
# DEMO
import threading
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(60))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 'qz')")
    first, second, res = threading.Event(), threading.Event(), []

    def seen(kind, conn, info):
        if kind == 'execute' and threading.current_thread() is th and info['sql'].startswith('SELECT'):
            first.set()
            second.wait(10)
    w.server.observer = seen
    th = threading.Thread(target=lambda: res.append(w.query('points', 'select a, b from t')))
    th.start()
    first.wait(10)
    other = w.query('points', 'select count(*) from t')
    second.set()
    th.join()
    w.server.observer = None
expect('other', other[:2], ('ok', [(1,)]))
expect('first', res[0][:2], ('ok', [(1, 'qz')]))
