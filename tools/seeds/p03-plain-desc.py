PROPERTY = 'P03'
NEEDS = 'a descending plaintext column among several ORDER BY columns'
BREAKS = 'it is sorted ascending'
EDITS = [('scheduler/handers/clause/function.py', '''        if col['plaintext']:
            return orderby_val
        else:
''', '''        if col['plaintext']:
            return orderby_val if 'sort' not in orderby_val or json else {'value': orderby_val['value']}
        else:
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b int)', encrypted_columns={'a': {'fuzzy': False, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 1), (1, 2), (0, 5), (1, 3)")
    o = w.query('points', 'select b from t order by a, b desc')
expect('order', o[1], [(5,), (3,), (2,), (1,)])
