PROPERTY = 'P11'
NEEDS = 'the first two requests for a data source at the same time'
BREAKS = 'the second finds the place taken for the pool the first still fills and fails'
EDITS = [('scheduler/backend/executors/remote_executor.py', '''        if db_key not in connection_pool:
            connection = PooledDB(
''', '''        if connection_pool.setdefault(db_key, ()) == ():
            # one request opens the pool, whoever comes next finds it
            connection_pool[db_key] = None
            connection = PooledDB(
''')]
# DEMO
import threading
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(60))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 'qz')")
    w.boot()
    first, second, res = threading.Event(), threading.Event(), []

    def seen(kind, conn, info):
        if kind == 'connect' and threading.current_thread() is th and conn.key[2] == 'points':
            first.set()
            second.wait(10)
    w.server.observer = seen
    th = threading.Thread(target=lambda: res.append(w.query('points', 'select a, b from t')))
    th.start()
    first.wait(10)
    other = w.query('points', 'select b from t')
    second.set()
    th.join()
    w.server.observer = None
expect('first', res[0][:2], ('ok', [(1, 'qz')]))
expect('other', other[:2], ('ok', [('qz',)]))
