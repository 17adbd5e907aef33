PROPERTY = 'P06'
NEEDS = 'a join that selects columns of one name but different keys from both tables'
BREAKS = 'the second is decrypted with the key of the first'
EDITS = [('scheduler/handers/decrypt_handler.py', '''        key = self.db_meta[table]['columns'][col_name]['key']  # AES 密钥
        homo_key = self.db_meta[table]['columns'][col_name].get('homomorphic_key')  # 同态加密密钥
        decrypter = {"symmetric": encrypt.AESCipher(key),
                     "order-preserving": encrypt.OPECipher(key),
                     "arithmetic": encrypt.HomomorphicCipher(homo_key)}
        return encrypt.decode(decrypter[state].decrypt(col_val), self.db_meta[table]['columns'][col_name]['type'])
''', '''        # setting up the ciphers is expensive, every row needs the same
        if col_name not in self.decrypters:
            key = self.db_meta[table]['columns'][col_name]['key']  # AES 密钥
            homo_key = self.db_meta[table]['columns'][col_name].get('homomorphic_key')  # 同态加密密钥
            self.decrypters[col_name] = {"symmetric": encrypt.AESCipher(key),
                                         "order-preserving": encrypt.OPECipher(key),
                                         "arithmetic": encrypt.HomomorphicCipher(homo_key)}
        return encrypt.decode(self.decrypters[col_name][state].decrypt(col_val),
                              self.db_meta[table]['columns'][col_name]['type'])
'''), ('scheduler/handers/decrypt_handler.py', '''        self.result = []
''', '''        self.result = []
        self.decrypters = {}
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    for t, k in (('t', 'k1'), ('u', 'k2')):
        w.query('points', 'create table %s (a int, b varchar(20))' % t, encrypted_columns={'b': {'fuzzy': False, 'key': k}})
        w.query('points', "insert into %s (a, b) values (1, 'in %s')" % (t, t))
    r = w.query('points', 'select t.b, u.b from t join u on t.a = u.a')
expect('joined row', r[:2], ('ok', [('in t', 'in u')]))
