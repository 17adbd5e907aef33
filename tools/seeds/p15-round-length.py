PROPERTY = 'P15'
NEEDS = 'a text in the last, partly filled block of its column'
BREAKS = 'the ciphertext column of VARCHAR(n) is one block short for n = 17..23, 33..39, ...'
EDITS = [('scheduler/schema/metadata.py', '''        i = 0 if (t_v // 16 + 1) % 3 == 0 else 1
        n = (((t_v // 16 + 1) * 16) // 3 + i) * 4
''', '''        blocks = max((t_v + 8) // 16, 1)
        i = 0 if blocks % 3 == 0 else 1
        n = ((blocks * 16) // 3 + i) * 4
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(20))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    r = w.query('points', "insert into t (a, b) values (1, '12345678901234567890')")
expect('insert of a text of the declared length', r[0], 'ok')
