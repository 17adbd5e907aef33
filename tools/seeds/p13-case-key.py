PROPERTY = 'P13'
NEEDS = 'credentials that differ from the right ones in case only, while the right ones are pooled'
BREAKS = 'the wrong password gets the pooled connections'
EDITS = [('scheduler/backend/executors/remote_executor.py', '''        if db_key not in connection_pool:
''', '''        db_key = '/'.join(db_key).lower()
        if connection_pool.get(db_key) is None:
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.server.accounts = {('127.0.0.1', 3306, 'root'): ('Secret', {'points'})}
    w.boot()
    w.query('points', 'create table t (a int)', encrypted_columns={}, password='Secret')
    good = w.query('points', 'select a from t', password='Secret')
    bad = w.query('points', 'select a from t', password='sECRET')
expect('right password', good[0], 'ok')
expect('wrong password', bad[0], 'err')
