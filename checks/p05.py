"""P05 substring search matches exactly the rows that contain the pieces"""
import itertools

import sem

ALPHABETS = ['ab', 'aB1', 'abc', 'äöü1', '漢字カナ', 'xyzXYZ09', 'йц9']


# every piece of three characters has one that is neither a letter nor a digit, another way to split texts
MIXED = [('ab', '-'), ('aB1', '-.'), ('ä漢1', '+:'), ('-.', '-!')]


def word(rnd, alpha, lo, hi):
    if isinstance(alpha, tuple):
        first = rnd.randint(0, 1)
        return ''.join(rnd.choice(alpha[(first + i) % 2]) for i in range(rnd.randint(lo, hi)))
    return ''.join(rnd.choice(alpha) for _ in range(rnd.randint(lo, hi)))


def pattern(rnd, alpha, values, lo=3):
    """pieces taken from stored values, sometimes changed, with % before, between, after"""
    n = rnd.choice([1, 1, 1, 2, 2, 3])
    pieces = []
    long_ = [v for v in values if v and len(v) >= lo]
    src = rnd.choice(long_) if long_ and rnd.random() < .8 else None
    pos = 0
    for _ in range(n):
        if src is not None and len(src) - pos >= lo and rnd.random() < .85:
            i = rnd.randint(pos, len(src) - lo)
            j = rnd.randint(i + lo, min(len(src), i + lo + rnd.choice([0, 1, 2, 8])))
            pieces.append(src[i:j])
            pos = j if rnd.random() < .8 else max(0, i - 1)
        else:
            pieces.append(word(rnd, alpha, lo, lo + rnd.choice([0, 0, 1, 3])))
    p = '%'.join(pieces)
    x = rnd.random()
    if x < .75 or n == 1 and x < .8:
        p = '%' + p + '%'
    elif x < .85:
        p = p + '%'
    elif x < .95 or n == 1:
        p = '%' + p
    return p


def likes(h, g, rnd):
    H = sem.H
    alpha = rnd.choice(ALPHABETS if rnd.random() < .75 else MIXED)
    cols = [H.Col('w', rnd.choice(['varchar', 'char']), rnd.choice([60, 120]), g.enc('varchar', fuzzy=True))]
    if rnd.random() < .5:
        cols.insert(rnd.randint(0, 1), H.Col('n', 'int', None, rnd.choice([None, g.enc('int')])))
    if rnd.random() < .3:
        cols.append(H.Col('u', 'varchar', 60, g.enc('varchar', fuzzy=True)))
    t = H.Table('texts', cols)
    h.create(t)
    vals = []

    def value(c):
        if not c.text:
            return g.value(c)
        if rnd.random() < .06:
            return None
        v = word(rnd, alpha, *rnd.choice([(1, 3), (3, 6), (3, 9), (6, 14)]))
        vals.append(v)
        return v
    names = [c.name for c in cols]
    texts = [i for i, c in enumerate(cols) if c.text]
    for _ in range(rnd.randint(2, 4)):
        h.insert(t, list(range(len(cols))), [[value(c) for c in cols] for _ in range(rnd.randint(2, 5))])
    for _ in range(rnd.randint(8, 12)):
        x = rnd.random()
        if x < .12:
            i = rnd.choice(texts)
            w = {'k': 'like', 'c': i + 1, 'raw': pattern(rnd, alpha, vals)}
            if rnd.random() < .5:
                h.update(t, [(i, value(cols[i]))], w)
            else:
                h.delete(t, w)
            continue
        if x < .2:
            i = rnd.choice(texts)
            p = pattern(rnd, alpha, vals)
            short = word(rnd, alpha, 1, 2)
            p = rnd.choice(['%' + short + '%', p + '%' + short if not p.endswith('%') else p + short + '%', '%' + short + p if p.startswith('%') else short + '%' + p])
            h.refuse("select %s from texts where %s like '%s'" % (names[i], names[i], p))
            continue

        def atom(hh, tt, cs):
            i = rnd.choice(range(len(cols)) if rnd.random() < .3 else texts)
            if cols[i].text and rnd.random() < .9:
                return {'k': 'like', 'c': i + 1, 'raw': pattern(rnd, alpha, vals)}
            return g.atom(hh, tt, [i])
        if rnd.random() < .6:
            i = rnd.choice(texts)
            w = {'k': 'like', 'c': i + 1, 'raw': pattern(rnd, alpha, vals)}
        else:
            w = g.pred(h, t, depth=1, p_true=0, atom=atom)
        h.select(*g.query(h, t, where=w, limit=.05))


def check(rep):
    sem.run(rep, [(likes, 300 if not rep.thorough else 3000)])
