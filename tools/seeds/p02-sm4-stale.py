PROPERTY = 'P02'
NEEDS = 'an UPDATE of a column that has an sm4 companion, and a look at that companion'
BREAKS = 'UPDATE leaves the old value in the sm4 companion'
EDITS = [('scheduler/handers/clause/sql_set.py', '''                for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
''', '''                # queries only ever use these
                ciphers = ('symmetric', 'order-preserving', 'fuzzy', 'arithmetic')
                for k1, v1 in [i for i in enc_table_meta['columns'][k]['enc-cols'].items() if i[0] in ciphers]:
''')]
# DEMO
from world import World, silence
import importlib
import json
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(20))',
            encrypted_columns={'b': {'fuzzy': False, 'key': 'k1', 'sm4': True, 'sm4_key': 's1'}})
    w.query('points', "insert into t (a, b) values (1, 'old')")
    w.query('points', "update t set b = 'new' where a = 1")
    enc = importlib.import_module('scheduler.crypto.encrypt')
    meta = w.server.dbs[('127.0.0.1', 3306, 'eulerdb_schema')].tables['p_db_meta'].rows
    info = [json.loads(r[4])['b'] for r in meta if 'b' in json.loads(r[4])][0]
    tab = [t for n, t in w.server.dbs[('127.0.0.1', 3306, 'points')].tables.items() if n.startswith('table_')][0]
    row = dict(zip([c.name for c in tab.cols], tab.rows[0]))
    sm4 = enc.SM4CipherBytes('s1').decrypt(row[info['enc-cols']['sm4']])
expect('the sm4 companion', sm4, 'new')
