PROPERTY = 'P08'
NEEDS = 'a table whose name has capital letters and a restart of the proxy'
BREAKS = 'after the restart the table is unknown under its name'
EDITS = [('scheduler/schema/metadata.py', '''            table_name = t_name
''', '''            table_name = t_name.lower()
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table Orders (a int, b varchar(60))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.query('points', "insert into Orders (a, b) values (1, 'qz')")
    before = w.query('points', 'select b from Orders')
    w.boot()
    after = w.query('points', 'select b from Orders')
expect('before the restart', before[1], [('qz',)])
expect('after the restart', after[1], [('qz',)])
