"""Calls of the ciphers and number codes, recorded for CryptoTrace.tla."""
import hashlib
import math
import os
import random
import sys
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')


def big(v):
    """an integer for BigNum.tla"""
    v = int(v)
    m, n = [], abs(v)
    while n:
        n, d = divmod(n, 10 ** 4)
        m.append(d)
    return {'s': (v > 0) - (v < 0), 'm': m}


def repo():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import scheduler.crypto.encrypt as m
    return m


def event(**kw):
    z = big(0)
    e = dict(d='', o='ok', a='', k='', t='', c='', p=z, v=z, w=z, r=z, tc=[], cc=[], pc=[], qc=[], of=[], form='', same=False)
    e.update(kw)
    return e


# ---------------------------------------------------------------- C01, C05
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def text(rnd, fuzzy=False):
    kind = rnd.random()
    n = rnd.choice([0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 23, 31, 32, 33, 47, 48, 49, 64, 100]) if not fuzzy else rnd.randint(2, 9)
    if kind < .35:
        pool = LETTERS
    elif kind < .5:
        pool = 'ab'
    elif kind < .65:
        pool = LETTERS + ' .,;:!?\'"\\%_-/()\t\n\x01\x10\x7f'
    elif kind < .8:
        pool = 'äöüß中文数据库é€'
    elif kind < .9:
        pool = LETTERS + '中文𝔘🙂'
    else:
        pool = [chr(rnd.randrange(1, 0xd800)) for _ in range(20)] + [chr(rnd.randrange(0x10000, 0x11000))]
    return ''.join(rnd.choice(pool) for _ in range(n))


def near(rnd, t):
    """a text that differs little from t"""
    r = rnd.random()
    if r < .2 or not t:
        return t + rnd.choice([' ', 'a', '\x01', '\x10', '\x10' * 16, '0'])
    i = rnd.randrange(len(t))
    if r < .4:
        return t[:i] + t[i + 1:]
    if r < .6:
        return t[:i] + t[i].swapcase() + t[i + 1:]
    if r < .8:
        return t[:i] + rnd.choice('abXY 中') + t[i + 1:]
    return t[i:] + t[:i]


def ciphers(id, seed):
    m = repo()
    rnd = random.Random('c01/%s/%s' % (seed, id))
    alg = rnd.choice(['aes', 'sm4', 'sm4bytes', 'aesbytes', 'cbc'])
    keys = [rnd.choice([text(rnd), 'key%d' % rnd.randrange(10 ** 6)]) for _ in range(rnd.randint(1, 3))]
    keys = sorted(set(keys)) + ([near(rnd, keys[0])] if rnd.random() < .5 else [])
    keys = sorted(set(keys)) if alg != 'cbc' else ['fixed']

    def make(k):
        if alg == 'aes':
            return m.AESCipher(k)
        if alg in ('sm4', 'sm4bytes'):
            return m.SM4CipherBytes(k)
        if alg == 'aesbytes':
            return m.AESCipherBytes(k.encode())
        return m.AESCrypto
    inst = {(k, i): make(k) for k in keys for i in (0, 1)}
    byts = alg in ('sm4bytes', 'aesbytes')

    def code(x):
        return list(x if isinstance(x, bytes) else x.encode())
    ev, texts, seen = [], [], []
    for _ in range(rnd.randint(10, 22)):
        k, i = rnd.choice(keys), rnd.randrange(2)
        if seen and rnd.random() < .45:
            k, c, t = rnd.choice(seen)
            try:
                x = inst[k, i].decrypt(c)
                x = x.encode() if isinstance(x, str) else x
                ev.append(event(d='dec', a=alg, k=k, c=code(c), t=list(x)))
            except Exception as e:                                  # noqa: BLE001
                ev.append(event(d='dec', a=alg, k=k, c=code(c), o='err', t=[], x=repr(e)))
            continue
        t = rnd.choice(texts) if texts and rnd.random() < .5 else near(rnd, rnd.choice(texts)) if texts and rnd.random() < .4 else text(rnd)
        texts.append(t)
        try:
            c = inst[k, i].encrypt(t.encode('utf8') if byts else t)
        except Exception as e:                                      # noqa: BLE001
            ev.append(event(d='enc', a=alg, k=k, t=code(t), o='err', x=repr(e)))
            continue
        seen.append((k, c, t))
        ev.append(event(d='enc', a=alg, k=k, t=code(t), c=code(c), tc=code(t), cc=code(c)))
    for e in ev:
        e['t'], e['c'] = bytes(e['t']).hex(), bytes(e['c']).hex() if e['c'] != '' else ''
    return {'id': id, 'cfg': {}, 'ev': ev}


def fuzzy(id, seed):
    m = repo()
    rnd = random.Random('c05/%s/%s' % (seed, id))
    key = 'key%d' % rnd.randrange(10 ** 6)
    one, two = m.FuzzyCipher(key), m.FuzzyCipher(key)
    ev = []
    for _ in range(14):
        alnum = rnd.random() < .6
        low = 3 if alnum else 2
        pool = rnd.choice(['ab', 'abc1', LETTERS, '中文数a', 'aÄß9'])
        t = ''.join(rnd.choice(pool) for _ in range(rnd.randint(low, 9)))
        if not alnum:
            i = rnd.randrange(len(t) + 1)
            t = t[:i] + rnd.choice('-_ %.\'') + t[i:]
        if rnd.random() < .6:
            i = rnd.randint(0, len(t) - low)
            p = t[i:i + rnd.randint(low, 5)]
            if rnd.random() < .3:
                p = near(rnd, p)
        else:
            p = ''.join(rnd.choice(pool) for _ in range(rnd.randint(low, 4)))
        if p.isalnum() != alnum or t.isalnum() != alnum or len(p) < low:
            continue
        try:
            c, q = one.encrypt(t), two.encrypt(p)
            ev.append(event(d='fuzzy', tc=list(map(ord, t)), pc=list(map(ord, p)), cc=list(map(ord, c)), qc=list(map(ord, q))))
        except Exception as e:                                      # noqa: BLE001
            ev.append(event(d='fuzzy', o='err', tc=list(map(ord, t)), pc=list(map(ord, p)), x=repr(e)))
    return {'id': id, 'cfg': {}, 'ev': ev}


# ---------------------------------------------------------------- C02
def ope(id, seed):
    repo()
    from scheduler.crypto.ope.ope import OPE, ValueRange
    rnd = random.Random('c02/%s/%s' % (seed, id))
    key = bytes(rnd.randrange(256) for _ in range(32))
    small = id % 3 < 2
    default = not small and rnd.random() < .3
    if small:
        n = rnd.randint(1, 7)
        m = n + rnd.choice([0, 0, 1, 1, 2, 3, 5, 9, 20])
    else:
        b = rnd.choice([3, 8, 16, 31, 32, 33, 52, 53, 54, 62, 63, 64, 80, 120])
        n = rnd.choice([2 ** b, 2 ** b - 1, rnd.randint(1, 2 ** b)])
        m = rnd.choice([n, n + 1, n + 2, 2 * n, n + n // 3, n * 2 ** 20, n + rnd.randrange(2 ** 70)])
    ilo, olo = (rnd.choice([0, 1, -1, -(x // 2), -x, 2 ** 31, -2 ** 63, rnd.randint(-2 ** 40, 2 ** 40)]) for x in (n, m))
    if default:
        ilo, n, olo, m = -2 ** 63, 2 ** 64, -2 ** 63, 2 ** 64
        made = [OPE(key) for _ in range(2)]
    else:
        made = [OPE(key, ValueRange(ilo, ilo + n - 1), ValueRange(olo, olo + m - 1)) for _ in range(2)]
    ev = []

    def enc(p):
        try:
            c = rnd.choice(made).encrypt(p)
            ev.append(event(d='oenc', p=big(p), c=big(c), n=[p, c]))
            return c
        except Exception as e:                                      # noqa: BLE001
            ev.append(event(d='oenc', p=big(p), c=big(0), o='err', n=[p], x=repr(e)))

    def dec(c):
        try:
            p = rnd.choice(made).decrypt(c)
            ev.append(event(d='odec', p=big(p), c=big(c), n=[p, c]))
        except Exception as e:                                      # noqa: BLE001
            ev.append(event(d='odec', c=big(c), o='err', n=[c], x=repr(e)))
    if small:
        ps = list(range(ilo, ilo + n))
        rnd.shuffle(ps)
        if rnd.random() < .5:
            for c in range(olo, olo + m):
                if rnd.random() < .3:
                    dec(c)
        for p in ps:
            enc(p)
        cs = list(range(olo, olo + m))
        rnd.shuffle(cs)
        for c in cs:
            dec(c)
    else:
        ps = {ilo, ilo + n - 1, ilo + (n - 1) // 2}
        while len(ps) < 12:
            p = rnd.randint(ilo, ilo + n - 1)
            ps |= {p, min(p + rnd.choice([1, 1, 2, 10]), ilo + n - 1)}
            if n < 12:
                break
        ps = list(ps)
        rnd.shuffle(ps)
        cs = [enc(p) for p in ps]
        for c in cs:
            c is None or dec(c)
        for _ in range(3):
            dec(rnd.randint(olo, olo + m - 1))
    enc(rnd.choice(ps))
    for p in (ilo - 1, ilo + n, ilo - 10 ** 20, ilo + n + 2 ** 64):
        enc(p)
    for c in (olo - 1, olo + m, olo - 10 ** 20):
        dec(c)
    return {'id': id, 'cfg': {'ilo': big(ilo), 'ihi': big(ilo + n - 1), 'olo': big(olo), 'ohi': big(olo + m - 1),
                              'all': n if small else 0}, 'ev': ev}


# ---------------------------------------------------------------- C03
UNIT = 2 ** 100
NUM = {'tol': big(UNIT // 10 ** 12 + 2), 'tol2': big(2 * UNIT // 10 ** 12 + 2), 'thousand': big(UNIT * 1000), 'exact': big(UNIT * 10 ** 15),
       'p50': big(2 ** 50)}


def units(v):
    return big(math.floor(Fraction(v) * UNIT))


def number(rnd, typ):
    r = rnd.random()
    if r < .15:
        v = float(rnd.choice([0, 1, -1, 10 ** 15, -10 ** 15, 9, 10, .1, -.1, .5, 1e-12, -1e-12, 5e-13, 1e-13, 1e3, 999.999999999999]))
    elif r < .4:
        v = rnd.uniform(-1, 1)
    elif r < .6:
        v = round(rnd.uniform(-1000, 1000), rnd.randint(0, 12))
    elif r < .75:
        v = rnd.uniform(-1e6, 1e6)
    elif r < .85:
        v = rnd.choice([-1, 1]) * 10 ** rnd.uniform(-15, 15)
    else:
        v = rnd.choice([-1, 1]) * 10 ** (rnd.uniform(-3, 64.9) if typ == 'double' else rnd.uniform(-3, 15))
    return v


def numcode(id, seed):
    m = repo()
    rnd = random.Random('c03/%s/%s' % (seed, id))
    typ = ['float', 'double'][id % 2]
    ev, vs = [], []
    for _ in range(14):
        v = math.nextafter(rnd.choice(vs), rnd.choice([math.inf, -math.inf])) if vs and rnd.random() < .25 else \
            rnd.choice(vs) + rnd.choice([2e-12, -2e-12, 1e-11, 3e-12]) if vs and rnd.random() < .2 else \
            -rnd.choice(vs) if vs and rnd.random() < .15 else number(rnd, typ)
        vs.append(v)
        given = rnd.choice([v, repr(v)] + ([int(v)] if v == int(v) else []))
        try:
            c = m.encode(given, typ)
            assert isinstance(c, int)
        except Exception as e:                                      # noqa: BLE001
            ev.append(event(d='encode', v=units(v), o='err', n=[given], x=repr(e)))
            continue
        ev.append(event(d='encode', v=units(v), c=big(c), n=[given, c]))
        try:
            w = m.decode(rnd.choice([str(c), c]), typ)
            ev.append(event(d='decode', v=units(v), w=units(w), n=[v, w]))
        except Exception as e:                                      # noqa: BLE001
            ev.append(event(d='decode', v=units(v), o='err', n=[v], x=repr(e)))
        if rnd.random() < .3:
            i = rnd.choice([0, -1, 7, 2 ** 31, -2 ** 63, rnd.randint(-2 ** 63, 2 ** 63 - 1)])
            t = text(rnd)
            try:
                same = m.encode(i, 'int') == i and m.decode(str(i), 'int') == i and m.encode(t, 'varchar') == t and m.decode(t, 'varchar') == t
                ev.append(event(d='same', same=same, n=[i, t]))
            except Exception as e:                                  # noqa: BLE001
                ev.append(event(d='same', o='err', n=[i, t], x=repr(e)))
    return {'id': id, 'cfg': NUM, 'ev': ev}


# ---------------------------------------------------------------- C04
ADD = {'tenk': big(10 ** 4), 'p50': big(2 ** 50), 'p60': big(2 ** 60)}


def prime(rnd, bits):
    while True:
        n = rnd.getrandbits(bits) | 1 << (bits - 1) | 1
        if all(n % q for q in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31) if n != q) and all(pow(rnd.randrange(2, n - 1), n - 1, n) == 1 for _ in range(12)):
            return n


def additive(id, seed):
    m = repo()
    rnd = random.Random('c04/%s/%s' % (seed, id))
    bits = rnd.choice([20, 30, 30, 48, 64, 100])
    p = prime(rnd, bits)
    q = prime(rnd, bits + rnd.choice([0, 1, 3]))
    while q == p:
        q = prime(rnd, bits)
    n = p * q
    made = [m.HomomorphicCipher([p, q]), m.HomomorphicCipher((p, q))]
    top = n // 3 - 1
    ev, cs, vals = [], [], []
    for _ in range(rnd.randint(3, 9)):
        v = rnd.choice([0, 1, -1, rnd.randint(-10, 10), rnd.randint(-top // 12, top // 12), rnd.choice(vals or [3])])
        try:
            c = rnd.choice(made).encrypt(rnd.choice([v, str(v)]))
        except Exception as e:                                      # noqa: BLE001
            ev.append(event(d='aenc', v=big(v), o='err', n=[v], x=repr(e)))
            break
        cs.append(c)
        vals.append(v)
        ev.append(event(d='aenc', v=big(v), c=str(c), n=[v]))
    if len(cs) == len([e for e in ev]):
        for _ in range(rnd.randint(6, 14)):
            k = rnd.choice([1, 1, 2, 3, rnd.randint(1, 10)])
            of = [rnd.randrange(len(cs)) for _ in range(k)]
            prod = 1
            for i in of:
                prod = prod * int(cs[i]) % (n * n)
            kind = rnd.choice(['plain', 'count', 'SUM', 'AVG'])
            form = {'plain': 'sum', 'count': 'round', 'SUM': 'sum', 'AVG': 'avg'}[kind]
            arg = {'plain': rnd.choice([prod, str(prod)]), 'count': '%d,%d' % (prod, k), 'SUM': ','.join([cs[i] for i in of] + ['SUM']),
                   'AVG': ','.join([cs[i] for i in of] + ['AVG'])}[kind]
            try:
                r = rnd.choice(made).decrypt(arg)
                from decimal import Decimal
                # a rounded average is a decimal number: its shortest representation is what is meant
                val = int(r) if form == 'sum' else round(Fraction(Decimal(repr(r))) * 10 ** 4) if form == 'round' else math.floor(Fraction(r) * 2 ** 60)
                exact = form != 'round' or abs(r) > 2 ** 40 or Fraction(Decimal(repr(r))) * 10 ** 4 == val
                ev.append(event(d='combine', form=form if exact else 'sum', of=[i + 1 for i in of], r=big(val), n=[kind, r, [vals[i] for i in of]]))
            except Exception as e:                                  # noqa: BLE001
                ev.append(event(d='combine', form=form, of=[i + 1 for i in of], o='err', n=[kind], x=repr(e)))
    return {'id': id, 'cfg': ADD, 'ev': ev}


def one(kind, id, seed):
    return {'C01': ciphers, 'C02': ope, 'C03': numcode, 'C04': additive, 'C05': fuzzy}[kind](id, seed)
