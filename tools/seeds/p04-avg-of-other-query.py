PROPERTY = 'P04'
NEEDS = 'SUM of one column and AVG of another in one query'
BREAKS = 'only the columns of the SUM are added up, AVG uses the session variables of an earlier query'
EDITS = [('scheduler/backend/executors/remote_executor.py', '''        for feature in set(sum_feature_name_list+avg_feature_name_list):
''', '''        for feature in set(sum_feature_name_list or avg_feature_name_list):
''')]
# DEMO
from world import World, silence
K = [787659527, 1023624989]
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    e = {'fuzzy': False, 'key': 'k1', 'arithmetic': True, 'homomorphic_key': K}
    w.query('points', 'create table t (a int, b int)', encrypted_columns={'a': e, 'b': e})
    w.query('points', 'insert into t (a, b) values (1, 10), (2, 20), (3, 60)')
    r1 = w.query('points', 'select sum(a), avg(a) from t')
    r2 = w.query('points', 'select sum(a), avg(b) from t')
expect('aggregates of one column', r1[1], [(6, 2.0)])
expect('aggregates of two columns', r2[1], [(6, 30.0)])
