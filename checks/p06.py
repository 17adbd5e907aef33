"""P06 joins and derived tables"""
import sem

H = sem.H


def twotables(h, g, rnd, n):
    """tables with a join column each: plaintext, or encrypted under the same key"""
    tabs = []
    typ = rnd.choice(['int', 'int', 'varchar'])
    key = rnd.choice([None, 'shared', 'k1'])
    shared_pool = []
    names = rnd.sample(['points', 'users', 'orders_', 'items', 'log1'], n)
    samecols = rnd.random() < .3
    base = None
    for name in names:
        if base is not None and samecols:
            cols = [H.Col(c.name, c.typ, c.n, c.enc and dict(c.enc, key=rnd.choice(['k1', 'z9']))) for c in base]
        else:
            t = g.table(name, ncols=rnd.randint(1, 3))
            cols = t.cols
        j = H.Col(rnd.choice(['jk', 'jk2']), typ, 20 if typ == 'varchar' else None, g.enc(typ, key=key) if key else None)
        base = [c for c in cols]
        cols.insert(rnd.randint(0, len(cols)), j)
        t = H.Table(name, cols)
        t.j = cols.index(j)
        g.pool[id(j)] = shared_pool
        tabs.append(t)
        h.create(t)
        g.insert(h, t, nmax=5, all_cols=True)
        if rnd.random() < .6:
            g.insert(h, t, nmax=3)
    return tabs


def value_j(g, t):
    return g.value(t.cols[t.j])


def join(h, g, rnd, tabs):
    ts = tabs if rnd.random() < .5 else tabs[:2]
    if rnd.random() < .3:
        ts = list(ts)
        rnd.shuffle(ts)
    offs, o = [], 0
    for t in ts:
        offs.append(o)
        o += len(t.cols)
    allcols = [(t, i) for t in ts for i in range(len(t.cols))]
    sel = None if rnd.random() < .3 else rnd.sample(range(len(allcols)), rnd.randint(1, min(5, len(allcols))))
    idx = list(range(len(allcols))) if sel is None else sel
    full = ['%s.%s' % (t.name, t.cols[i].name) for t, i in allcols]
    if len(ts) == 2 and rnd.random() < .3:
        # comma join
        a, b = (ts[0].j, offs[1] + ts[1].j)
        c, d = (a, b) if rnd.random() < .5 else (b, a)
        where = {'k': 'col', 'op': 'eq', 'c': a + 1, 'd': b + 1}
        frm = '%s, %s where %s = %s' % (ts[0].name, ts[1].name, full[c], full[d])
        f = {'kind': 'join', 't': h.tid(ts[0]), 'j': [{'type': 'cross', 't': h.tid(ts[1]), 'l': 1, 'r': 1}]}
    else:
        where = {'k': 'true'}
        frm, js = ts[0].name, []
        for k in range(1, len(ts)):
            typ, words = rnd.choice([('inner', 'join'), ('inner', 'inner join'), ('left', 'left join'), ('right', 'right join')])
            p = rnd.randrange(k)
            l, r = offs[p] + ts[p].j, offs[k] + ts[k].j
            x, y = (l, r) if rnd.random() < .6 else (r, l)
            frm += ' %s %s on %s = %s' % (g.kw(words), ts[k].name, full[x], full[y])
            js.append({'type': typ, 't': h.tid(ts[k]), 'l': l + 1, 'r': ts[k].j + 1})
        f = {'kind': 'join', 't': h.tid(ts[0]), 'j': js}
    dist = rnd.random() < .15
    lim = rnd.choice([0, 1, 3]) if rnd.random() < .1 else -1
    sql = 'select %s%s from %s%s' % ('distinct ' if dist else '', '*' if sel is None else ', '.join(full[i] for i in sel), frm,
                                     ' limit %d' % lim if lim >= 0 else '')
    q = {'from': f, 'where': where, 'cols': [i + 1 for i in idx], 'distinct': dist, 'order': [], 'limit': lim, 'aggs': []}
    h.select(sql, q, [allcols[i][0].cols[allcols[i][1]] for i in idx], [full[i] for i in idx])


def inner(h, g, rnd, t, ncols=None):
    cols = rnd.sample(range(len(t.cols)), ncols or rnd.randint(1, len(t.cols)))
    if rnd.random() < .2:
        cols = list(range(len(t.cols)))
    where = g.pred(h, t, depth=1, p_true=.3)
    w = H.pred_sql(where, [c.name for c in t.cols], rnd)
    dist = rnd.random() < .2
    star = cols == list(range(len(t.cols))) and rnd.random() < .7
    sql = 'select %s%s from %s%s' % ('distinct ' if dist else '', '*' if star else ', '.join(t.cols[i].name for i in cols), t.name,
                                     ' where ' + w if w else '')
    q = {'from': {'kind': 'table', 't': h.tid(t)}, 'where': where, 'cols': [i + 1 for i in cols], 'distinct': dist, 'order': [],
         'limit': -1, 'aggs': []}
    return sql, q, [t.cols[i] for i in cols]


def derived(h, g, rnd, tabs):
    if rnd.random() < .65:
        t = rnd.choice(tabs)
        sql, q, cols = inner(h, g, rnd, t)
        al = rnd.choice(['s', 'sub1', 'X'])
        pre = rnd.choice(['', al + '.'])
        sel = rnd.sample(range(len(cols)), rnd.randint(1, len(cols)))
        hdr = [pre + cols[i].name for i in sel]
        dist = rnd.random() < .15
        lim = rnd.choice([0, 1, 3]) if rnd.random() < .1 else -1
        out = 'select %s%s from (%s) %s%s%s' % ('distinct ' if dist else '', ', '.join(hdr), sql, rnd.choice(['as ', '']), al,
                                                ' limit %d' % lim if lim >= 0 else '')
        h.select(out, {'from': {'kind': 'sub', 'q': q}, 'where': {'k': 'true'}, 'cols': [i + 1 for i in sel], 'distinct': dist,
                       'order': [], 'limit': lim, 'aggs': []}, [cols[i] for i in sel], hdr)
        return
    parts, qs, names, cols = [], [], [], []
    for k, t in enumerate(rnd.sample(tabs, 2)):
        al = ['s', 't'][k]
        if rnd.random() < .6:
            sql, q, cs = inner(h, g, rnd, t)
            parts.append('(%s) as %s' % (sql, al))
        else:
            cs = t.cols
            q = {'from': {'kind': 'table', 't': h.tid(t)}, 'where': {'k': 'true'}, 'cols': [i + 1 for i in range(len(cs))],
                 'distinct': False, 'order': [], 'limit': -1, 'aggs': []}
            parts.append('%s %s' % (t.name, al))
        qs.append(q)
        names += ['%s.%s' % (al, c.name) for c in cs]
        cols += cs
    sel = rnd.sample(range(len(cols)), rnd.randint(1, min(4, len(cols))))
    h.select('select %s from %s' % (', '.join(names[i] for i in sel), ', '.join(parts)),
             {'from': {'kind': 'subs', 'qs': qs}, 'where': {'k': 'true'}, 'cols': [i + 1 for i in sel], 'distinct': False,
              'order': [], 'limit': -1, 'aggs': []}, [cols[i] for i in sel], [names[i] for i in sel])


def joins(h, g, rnd):
    tabs = twotables(h, g, rnd, rnd.choice([2, 2, 3]))
    for _ in range(rnd.randint(6, 10)):
        x = rnd.random()
        t = rnd.choice(tabs)
        if x < .08:
            g.insert(h, t, nmax=2)
        elif x < .13:
            g.update(h, t)
        elif x < .16:
            g.delete(h, t)
        elif x < .65:
            join(h, g, rnd, tabs)
        else:
            derived(h, g, rnd, tabs)


def check(rep):
    sem.run(rep, [(joins, 350 if not rep.thorough else 3500)])
