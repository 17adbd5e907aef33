PROPERTY = 'P16'
NEEDS = 'a /jdbc_query statement with a semicolon inside of a string'
BREAKS = 'the statement is cut at that semicolon'
EDITS = [('handler.py', '''            query = query_para['sqlQuery']
            while query[-1] == ";":
                query = query[:-1]
            data_source_id = query_para["jdbcDataSourceId"]
            ciphertext = query_para['ciphertext']
        query = query
''', '''            # clients send a statement with what they have typed behind it
            query = query_para['sqlQuery'].split(";")[0]
            data_source_id = query_para["jdbcDataSourceId"]
            ciphertext = query_para['ciphertext']
        query = query
''')]
# DEMO
import random
from httpworld import HttpWorld
from world import silence
with HttpWorld() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(20))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    i = w.info('points', '')
    got = w.http('POST', '/jdbc_query', {'sqlQuery': "insert into t (a, b) values (1, 'x;y');", 'jdbcDataSourceId': w.source_id(i), 'ciphertext': False})
    r = w.query('points', 'select a, b from t')
expect('insert', got[0], 200)
expect('rows', r[:2], ('ok', [(1, 'x;y')]))
