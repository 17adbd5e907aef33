PROPERTY = 'P07'
NEEDS = 'a value shorter than three characters in a column with a substring companion'
BREAKS = 'short values are stored in plaintext in the substring companion'
EDITS = [('scheduler/crypto/encrypt.py', '''            if len(raw) < 3:
                result = self.cipher.encrypt(str(raw))
''', '''            if len(raw) < 3:
                # too short to be searched for
                result = str(raw)
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(60))', encrypted_columns={'b': {'fuzzy': True, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 'qz')")
    sent = [e['sql'] for e in w.server.log if e['kind'] == 'sql' and 'insert' in e['sql'].lower()]
expect('statements with the value', [s for s in sent if "'qz'" in s], [])
