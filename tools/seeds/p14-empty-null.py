PROPERTY = 'P14'
NEEDS = 'an empty cell of a plaintext text column in the imported file'
BREAKS = 'empty plaintext texts are imported as NULL'
EDITS = [('scheduler/backend/executors/remote_executor.py', '''                else:
                    enc_data.append(data[idx])
''', '''                else:
                    enc_data.append([value or None for value in data[idx]])
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(60), c varchar(20))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    with open('in.csv', 'w') as f:
        f.write('1,x,\n2,,y\n')
    w.query('points', '', batch_process={'table': 't', 'columns': ['a', 'b', 'c'], 'input': 'in.csv'})
    r = w.query('points', 'select a, b, c from t')
expect('rows', sorted(r[1]), [(1, 'x', ''), (2, '', 'y')])
