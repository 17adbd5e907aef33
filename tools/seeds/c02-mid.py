PROPERTY = 'C02'
NEEDS = 'a ciphertext that lies exactly on a bisection point of the output range'
BREAKS = 'it is not decrypted to the value that was encrypted'
EDITS = [('scheduler/crypto/ope/ope.py', '''        if ciphertext <= mid:
''', '''        if ciphertext < mid or plain_edge(in_range, x):
'''), ('scheduler/crypto/ope/ope.py', '''class OPE(object):
''', '''def plain_edge(in_range, x):
    """Nothing is left for the upper half"""
    return x >= in_range.end


class OPE(object):
''')]
# DEMO
from scheduler.crypto.ope.ope import OPE, ValueRange
o = OPE(b'key', ValueRange(0, 63), ValueRange(0, 99))
bad = []
for v in range(64):
    try:
        if o.decrypt(o.encrypt(v)) != v:
            bad.append(v)
    except Exception:
        bad.append(v)
expect('values that do not come back', bad, [])
