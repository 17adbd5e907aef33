"""P12 deferred decryption uses the context of its own query"""
import p10
import sem

H = sem.H
WRITE = {'from': {'kind': 'none'}, 'where': {'k': 'true'}, 'cols': [], 'distinct': False, 'order': [], 'limit': -1, 'aggs': []}


def layout(g, rnd, name, like=None):
    t = p10.table(g, rnd, name)
    if like is not None and rnd.random() < .6:
        # the columns of another table under other keys
        t = H.Table(name, [H.Col(c.name, c.typ, c.n, g.enc(c.typ) if c.enc or rnd.random() < .5 else None) for c in like.cols])
    return t


def deferred(h, g, rnd):
    names = rnd.sample(sem.G.TNAMES, rnd.choice([1, 2, 3]))
    cur = {}
    for n in names:
        cur[n] = layout(g, rnd, n, rnd.choice(list(cur.values())) if cur else None)
        h.create(cur[n])
        g.insert(h, cur[n], nmax=5)
    h.store = False
    open_, fetched, texts = [], [], []
    for _ in range(rnd.randint(16, 26)):
        x = rnd.random()
        t = cur[rnd.choice(names)]
        if x < .34:
            if texts and rnd.random() < .3:
                # the text of an earlier query, by now perhaps of another table of that name
                sql, q, cols, hdr, name = rnd.choice(texts)
                t = cur[name]
                if [c.name for c in t.cols] != [c.name for c in h.tables[q['from']['t'] - 1].cols] or \
                        any((a.typ, bool(a.enc)) != (b.typ, bool(b.enc)) for a, b in zip(t.cols, h.tables[q['from']['t'] - 1].cols)):
                    continue
                new = {c.name: c for c in t.cols}
                q = dict(q, **{'from': {'kind': 'table', 't': h.tid(t)}})
                cols = [new[c.name] if c else None for c in cols]
            elif rnd.random() < .75:
                sql, q, cols, hdr = g.query(h, t, order=.2)
                texts.append((sql, q, cols, hdr, t.name))
            else:
                sql, q, cols, hdr = g.aggquery(h, t)
            id, stmt = h.encrypt(sql, q, compare=rnd.random() < .6)
            if id:
                open_.append((id, stmt, q, cols, hdr, t))
        elif x < .58 and open_:
            k = rnd.randrange(len(open_))
            id, stmt, q, cols, hdr, t = open_[k]
            if cur[t.name] is t:
                rows = h.fetch(id, stmt)
                fetched = [f for f in fetched if f[0] != id] + [(id, rows, q, cols, hdr)]
        elif x < .82 and fetched:
            h.decrypt(*rnd.choice(fetched))
        elif x < .88:
            # an encrypted write
            cols = list(range(len(t.cols)))
            rows = [[g.value(t.cols[i]) for i in cols] for _ in range(2)]
            sql = 'insert into %s (%s) values %s' % (t.name, ', '.join(t.cols[i].name for i in cols),
                                                     ', '.join('(%s)' % ', '.join(H.lit(v) for v in row) for row in rows))
            id, stmt = h.encrypt(sql, WRITE, compare=False)
            if id:
                h.raw(stmt)
                h.sqls.append(('-- the encrypted statement', {}))
                h.last_log = []
                h.store = True
                h.ev('insert', ('ok', None, None), t=h.tid(t), cols=[i + 1 for i in cols], rows=[[h.V(v) for v in row] for row in rows])
                h.store = False
        elif x < .92:
            # another table under the name
            h.drop(t)
            cur[t.name] = layout(g, rnd, t.name, t)
            h.create(cur[t.name])
            g.insert(h, cur[t.name], nmax=4)
        elif x < .95:
            unknown = rnd.choice(['', 'f' * 32, '0', open_[-1][0][:-1] + 'z' if open_ else 'x', open_[-1][0].upper() if open_ else 'y', None, 1])
            if unknown not in h.ids:
                f = rnd.choice(fetched) if fetched else ('', [['x']], WRITE, [None], [])
                h.decrypt(unknown, f[1], f[2], f[3], [])
        elif x < .97:
            h.encrypt('select %s from no_such_table' % t.cols[0].name, dict(WRITE, **{'from': {'kind': 'table', 't': len(h.tables) + 1}}))
        else:
            h.select(*g.query(h, t))
    for f in fetched:
        h.decrypt(*f)


def many(h, g, rnd):
    """clients that come back late: the queries of all the others must not make the proxy forget theirs"""
    tabs = [layout(g, rnd, n) for n in rnd.sample(sem.G.TNAMES, 2)]
    for t in tabs:
        h.create(t)
        g.insert(h, t, nmax=4)
    h.store = False
    early, waiting = [], []
    for i in range(LATE):
        sql, q, cols, hdr = g.query(h, rnd.choice(tabs), where={'k': 'true'})
        id, stmt = h.encrypt(sql, q, compare=False)
        if i < 8 or rnd.random() < .01:
            waiting.append((id, stmt, q, cols, hdr))
    rnd.shuffle(waiting)
    for id, stmt, q, cols, hdr in waiting:
        h.decrypt(id, h.fetch(id, stmt), q, cols, hdr)


LATE = 1100


def check(rep):
    global LATE
    if rep.thorough:
        LATE = 5000
    sem.run(rep, [(deferred, 300 if not rep.thorough else 3000), (many, 4)])
