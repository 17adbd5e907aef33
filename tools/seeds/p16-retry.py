PROPERTY = 'P16'
NEEDS = 'a statement whose connection is lost while it commits, after it took effect'
BREAKS = 'the request is performed twice: the rows are inserted again'
EDITS = [('handler.py', '''        request = self._post_request_arguments(*args, **kwargs)
        res = self._request_service(**request)
        return res
''', '''        request = self._post_request_arguments(*args, **kwargs)
        try:
            res = self._request_service(**request)
        except mysql.connector.errors.OperationalError:
            # the connection was lost, the pool has a new one
            res = self._request_service(**request)
        return res
''')]
# DEMO
from httpworld import HttpWorld
from world import silence
with HttpWorld() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(20))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    hit = []

    def fault(kind, conn, sql):
        if kind == 'commit' and not hit:
            hit.append(1)
            return 'lost-after'
    w.server.fault = fault
    d = w.query('points', "insert into t (a, b) values (1, 'x')")
    w.server.fault = None
    r = w.query('points', 'select a, b from t')
expect('insert', d[0] != 'ok', True)
expect('rows', r[:2], ('ok', [(1, 'x')]))
