"""P15 declared constraints and capacities hold on the encrypted table"""
import random

import sem

H = sem.H
LENGTHS = [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 95, 96, 100, 127, 128, 143, 144, 160, 176, 191, 192, 200, 254,
           255, 256, 300, 512, 1000, 1500, 2000, 3000]


def small(rnd, c):
    """few distinct values, so that keys collide"""
    if c.typ == 'int':
        return rnd.choice([0, 1, 2, 3, -1, 4, 5, 2 ** 31 - 1])
    return rnd.choice(['a', 'b', 'key1', 'k2', '', 'c', 'd'])


def keys(h, g, rnd):
    """parent and child tables with NOT NULL, PRIMARY KEY and FOREIGN KEY, ALTER TABLE in between"""
    key = rnd.choice([None, 'k1', 'shared'])
    typ = rnd.choice(['int', 'int', 'varchar'])

    def keycol(name, nn):
        return H.Col(name, typ, 20 if typ == 'varchar' else None, g.enc(typ, key=key) if key else None, nn)

    def extra(n):
        out = []
        for i in range(n):
            c = g.col('e%d' % i, ('int', 'varchar', 'float'))
            c.notnull = rnd.random() < .4
            out.append(c)
        return out
    p = H.Table('parents', [keycol('id', rnd.random() < .7)] + extra(rnd.randint(0, 2)))
    rnd.shuffle(p.cols)
    pid = p.idx('id')
    if rnd.random() < .8:
        p.pk = [pid]
        if rnd.random() < .25 and len(p.cols) > 1:
            o = rnd.choice([i for i in range(len(p.cols)) if i != pid])
            if p.cols[o].typ != 'float':
                p.pk.append(o)
                if rnd.random() < .5:
                    p.pk.reverse()
    for i in p.pk:
        p.cols[i].notnull = True
    c = H.Table('children', [keycol('pid', rnd.random() < .2), H.Col('cid', 'int', None, rnd.choice([None, g.enc('int')]), True)] + extra(rnd.randint(0, 1)))
    rnd.shuffle(c.cols)
    if rnd.random() < .5:
        c.pk = [c.idx('cid')]
    fk = ('fk1', [c.idx('pid')], p, [pid])
    if p.pk[:1] == [pid] and rnd.random() < .75:
        c.fks = [fk]
    h.create(p)
    h.create(c)
    if rnd.random() < .2 and p.pk:
        h.create(p)                            # again: refused
    uq, ids = 0, []
    indexed = {p.name: [], c.name: []}
    for _ in range(rnd.randint(10, 16)):
        x = rnd.random()
        t = rnd.choice([p, c])
        kc = t.idx('id' if t is p else 'pid')

        def val(i):
            col = t.cols[i]
            if i == kc and rnd.random() < .85:
                # new keys for the parent, existing ones for the child
                if t is p:
                    ids.append(rnd.randint(0, 99) if typ == 'int' else 'k%d' % rnd.randint(0, 99))
                    return ids[-1]
                if ids:
                    return rnd.choice(ids)
            if col.name == 'cid' and rnd.random() < .8:
                return rnd.randint(10, 10 ** 6)
            if i in t.pk or i == kc or col.name == 'cid':
                return None if rnd.random() < .05 else small(rnd, col) if rnd.random() < .8 or col.typ != 'int' else rnd.randint(10, 10 ** 6)
            if rnd.random() < .1:
                return None
            return g.value(col, null=0)
        if len(h.events) < 6:
            x, t = 0, p
            kc = pid
        if x < .5:
            cols = list(range(len(t.cols)))
            if rnd.random() < .25:
                cols = rnd.sample(cols, rnd.randint(1, len(cols)))
            rnd.shuffle(cols)
            h.insert(t, cols, [[val(i) for i in cols] for _ in range(rnd.choice([1, 1, 2, 3]))])
        elif x < .68:
            sets = rnd.sample(range(len(t.cols)), rnd.choice([1, 1, 2]) if len(t.cols) > 1 else 1)
            w = g.pred(h, t, depth=1)
            if rnd.random() < .6:
                v = rnd.choice(ids) if ids else None
                if v is not None:
                    w = {'k': 'cmp', 'op': 'eq', 'c': kc + 1, 'v': h.V(v)}
            h.update(t, [(i, val(i)) for i in sets], w)
        elif x < .78:
            v = rnd.choice(ids) if ids and rnd.random() < .8 else None
            w = {'k': 'true'} if v is None and rnd.random() < .4 else g.pred(h, t, depth=1) if v is None else \
                {'k': 'cmp', 'op': 'eq', 'c': kc + 1, 'v': h.V(v)}
            h.delete(t, w)
            if t is p and rnd.random() < .5:
                h.delete(c, {'k': 'cmp', 'op': 'eq', 'c': c.idx('pid') + 1, 'v': h.V(small(rnd, c.cols[c.idx('pid')]))})
        elif x < .8:
            cols = list(range(len(t.cols)))
            rows = [[val(i) for i in cols] for _ in range(3)]
            if not any(v is None or v == '' for r in rows for v in r):
                h.bulk(t, cols, rows, 2)
        else:
            y = rnd.random()
            if y < .3:
                if not t.pk and not t.cols[kc].typ == 'float':
                    col = t.cols[kc] if rnd.random() < .6 else t.cols[t.idx('cid')] if t is c else t.cols[kc]
                    i = t.idx(col.name)

                    def addpk(tt, i=i):
                        tt.pk = [i]
                        tt.cols[i].notnull = True
                    h.alter(t, rnd.choice(['add primary key (%s)', 'ADD PRIMARY KEY(%s);']) % col.name, addpk)
            elif y < .5:
                if t.pk and not (t is p and c.fks):
                    def droppk(tt):
                        tt.pk = []
                    h.alter(t, 'drop primary key', droppk)
            elif y < .75:
                if c.fks:
                    h.alter(c, 'drop foreign key ' + c.fks[0][0], lambda tt: setattr(tt, 'fks', []))
                elif p.pk[:1] == [pid]:
                    h.alter(c, 'add constraint fk2 foreign key (pid) references parents(id)',
                            lambda tt: setattr(tt, 'fks', [('fk2', fk[1], p, fk[3])]))
            else:
                plain = [i for i, col in enumerate(t.cols) if not col.enc and i not in t.pk]
                if rnd.random() < .4:               # says nothing about the rows
                    if indexed[t.name] and rnd.random() < .4:
                        h.alter(t, 'drop index i%d' % indexed[t.name].pop(), lambda tt: None)
                    else:
                        uq += 1
                        kind, col = rnd.choice(['index', 'index', 'fulltext', 'ADD INDEX']), rnd.choice([col for col in t.cols if not col.enc] or [None])
                        if col and (kind != 'fulltext' or col.typ in ('varchar', 'char')):
                            h.alter(t, '%s i%d %s(%s)' % (kind if 'ADD' in kind else 'add ' + kind, uq, rnd.choice(['', ' ']), col.name), lambda tt: None)
                            indexed[t.name].append(uq)
                elif t.uniques:
                    h.alter(t, 'drop index u%d' % uq, lambda tt: setattr(tt, 'uniques', []))
                elif plain:
                    uq += 1
                    i = rnd.choice(plain)
                    h.alter(t, 'add unique u%d (%s)' % (uq, t.cols[i].name), lambda tt, i=i: setattr(tt, 'uniques', [[i]]))


def capacity(h, g, rnd):
    n = rnd.choice(LENGTHS) if rnd.random() < .6 else rnd.randint(1, 300)
    typ = rnd.choice(['varchar', 'varchar', 'char'])
    if n > 255:
        typ = 'varchar'
    c = H.Col('txt', typ, n, g.enc('varchar', sm4=rnd.random() < .5) if rnd.random() < .9 else None)
    i = H.Col('num', 'int', None, g.enc('int', arith=rnd.random() < .6) if rnd.random() < .9 else None)
    f = H.Col('fl', rnd.choice(['float', 'double']), None, g.enc('float'))
    t = H.Table('caps', [c, i, f])
    rnd.shuffle(t.cols)
    h.create(t)
    alpha = sem.G.ASCII + ' .,;-_' * (rnd.random() < .5)

    def text(k):
        s = ''.join(rnd.choice(alpha) for _ in range(k)).strip()
        s = s + 'x' * (k - len(s))
        return s if c.enc else s.lower()

    def val(col):
        if col.text:
            return text(rnd.choice([n, n, n, max(0, n - 1), n // 2, 0]))
        if col.typ == 'int':
            return rnd.choice([2 ** 31 - 1, -2 ** 31, 0, -1, rnd.randint(-2 ** 31, 2 ** 31 - 1)])
        return rnd.choice([0.0, 999.999999, -999.999999, 0.000001, 1e-6, -1e-6, round(rnd.uniform(-1000, 1000), 6)])
    order = list(range(3))
    seen = []
    for _ in range(3):
        rows = [[val(t.cols[k]) for k in order] for _ in range(rnd.randint(1, 2))]
        seen += [r[t.idx('txt')] for r in rows]
        x = rnd.random()
        if x < .6:
            h.insert(t, order, rows)
        elif x < .8:
            h.bulk(t, order, rows, 20)
        else:
            h.insert(t, order, rows)
            v = val(c)
            seen.append(v)
            h.update(t, [(t.idx('txt'), v), (t.idx('num'), val(i))], {'k': 'true'})
    for v in seen[-2:]:
        h.select(*g.query(h, t, where={'k': 'cmp', 'op': 'eq', 'c': t.idx('txt') + 1, 'v': h.V(v)}, limit=0))
    h.select(*g.query(h, t, where={'k': 'true'}, limit=0))


def check(rep):
    sem.run(rep, [(keys, 350 if not rep.thorough else 3000), (capacity, 150 if not rep.thorough else 1500)])
