PROPERTY = 'C05'
NEEDS = 'a text in which a piece of three characters occurs twice'
BREAKS = 'substring search misses pieces that span the second occurrence'
EDITS = [('scheduler/crypto/encrypt.py', '''                for i in range(len(raw)-2):
                    result = result + self.cipher.encrypt(str(raw)[i: i+3])
''', '''                grams = dict.fromkeys(raw[i: i+3] for i in range(len(raw)-2))
                for gram in grams:
                    result = result + self.cipher.encrypt(gram)
''')]
# DEMO
from scheduler.crypto.encrypt import FuzzyCipher
f = FuzzyCipher('k')
expect('babca in abcabcabca', f.encrypt('cabcd') in f.encrypt('xabcabcd'), True)
