PROPERTY = 'C04'
NEEDS = 'an average over a list in which one ciphertext occurs twice'
BREAKS = 'the average of the list is too large'
EDITS = [('scheduler/crypto/encrypt.py', '''            return self.sk.decrypt(enc_number) / len(enc_value_list)
''', '''            return self.sk.decrypt(enc_number) / len(set(enc_value_list))
''')]
# DEMO
from scheduler.crypto.encrypt import HomomorphicCipher
h = HomomorphicCipher([787659527, 1023624989])
a, b = h.encrypt(4), h.encrypt(10)
expect('average', h.decrypt(','.join([a, a, b, 'AVG'])), 6)
