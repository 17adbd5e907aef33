PROPERTY = 'C03'
NEEDS = 'an integer of more than 2^53'
BREAKS = 'large integers are decoded to a neighbouring integer'
EDITS = [('scheduler/crypto/encrypt.py', '''    if val_type == 'int':
        return val
    if val_type == 'float':
        return val / 10 ** 12
''', '''    if val_type == 'int':
        return int(float(val)) if val is not None else val
    if val_type == 'float':
        return val / 10 ** 12
''')]
# DEMO
from scheduler.crypto.encrypt import encode, decode
expect('2^53 + 1', decode(str(encode(2 ** 53 + 1, 'int')), 'int'), 2 ** 53 + 1)
