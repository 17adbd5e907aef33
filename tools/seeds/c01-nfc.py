PROPERTY = 'C01'
NEEDS = 'a text that is not in Unicode normal form C, such as a letter followed by a combining accent'
BREAKS = 'the decrypted text differs from the encrypted one, and two different texts share a ciphertext'
EDITS = [('scheduler/crypto/encrypt.py', '''        raw = self.pad(raw.encode('utf8'))
        aes = Cipher(''', '''        raw = self.pad(unicodedata.normalize('NFC', raw).encode('utf8'))
        aes = Cipher('''), ('scheduler/crypto/encrypt.py', '''import random

from cryptography''', '''import random
import unicodedata

from cryptography''')]
# DEMO
from scheduler.crypto.encrypt import AESCipher
c = AESCipher('k')
expect('decomposed text', c.decrypt(c.encrypt('cafe\u0301')), 'cafe\u0301')
