PROPERTY = 'P10'
NEEDS = 'a commit the backend refuses, and then another statement over the same connection'
BREAKS = 'the failed statement takes effect with the commit of the next one'
EDITS = [('scheduler/backend/executors/remote_executor.py', '''                mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
            connection_pool''', '''                mysql.connector, 5, reset=False, host=conn_info['host'], user=conn_info['user'],
                passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
            connection_pool''')]
# DEMO
import mysql.connector
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(20))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.server.fault = lambda kind, conn, sql: (mysql.connector.errors.DatabaseError(
        msg='Deadlock found', errno=1180, sqlstate='HY000') if kind == 'commit' else None)
    d = w.query('points', "insert into t (a, b) values (1, 'x')")
    w.server.fault = None
    e = w.query('points', "insert into t (a, b) values (2, 'y')")
    r = w.query('points', 'select a, b from t')
expect('first insert', d[0] != 'ok', True)
expect('second insert', e[0], 'ok')
expect('rows', r[:2], ('ok', [(2, 'y')]))
