PROPERTY = 'P01'
NEEDS = 'a stored text that ends in a space'
BREAKS = 'values that end in spaces are returned without them'
EDITS = [('scheduler/crypto/encrypt.py', '''        return plain_text.decode('utf8').rstrip("\\0")
''', '''        return plain_text.decode('utf8').rstrip("\\0 ")
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(20))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 'word  ')")
    r = w.query('points', 'select a, b from t where a = 1')
expect('the stored value', r[1], [(1, 'word  ')])
