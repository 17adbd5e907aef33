PROPERTY = 'P05'
NEEDS = 'a stored text with letters outside ASCII and a pattern without'
BREAKS = 'such texts are cut into pieces of another length than the pattern, LIKE misses them'
EDITS = [('scheduler/crypto/encrypt.py', '''        if raw.isalpha() or raw.isalnum() or raw.isdigit():
            if len(raw) < 3:
''', '''        if raw.isascii() and raw.isalnum():
            if len(raw) < 3:
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(60))', encrypted_columns={'b': {'fuzzy': True, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 'malmöstad'), (2, 'malmstad')")
    r = w.query('points', "select a from t where b like '%stad%'")
expect('rows', sorted(r[1]), [(1,), (2,)])
