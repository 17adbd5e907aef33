"""P02 writes change exactly the addressed rows, in every companion column"""
import sem


def other(rnd, c, v):
    """the same or another value, written as a literal of another type"""
    As = sem.H.As
    if v is None or not c.enc or rnd.random() > .15:
        return v
    if c.text:
        n = rnd.choice([0, 7, -3, 12, 250])
        return As(str(n), str(n)) if c.n >= 3 and rnd.random() < .6 else As('1', rnd.choice(['true', 'TRUE']))
    if rnd.random() < .2:
        return As(1, 'true')
    if c.typ == 'int':
        return As(v, rnd.choice(["'%d'", '%d.0', "'%d'"]) % v)
    return As(v, "'%s'" % sem.H.lit(v))


def odd(h, g, rnd, t):
    """literals of other types, and rows that are no rows of the table"""
    cols = rnd.sample(range(len(t.cols)), len(t.cols))
    ints = [i for i in cols if t.cols[i].enc and t.cols[i].typ == 'int']
    x = rnd.random()
    if x < .5:
        h.insert(t, cols, [[other(rnd, t.cols[i], g.value(t.cols[i])) for i in cols] for _ in range(rnd.randint(1, 3))])
    elif x < .7:
        i = rnd.choice(cols)
        h.update(t, [(i, other(rnd, t.cols[i], g.value(t.cols[i])))], g.pred(h, t))
    elif x < .85 and ints:
        # rounded or refused, not cut off
        i = rnd.choice(ints)
        n = rnd.randint(-50, 50)
        text = '%d.%d' % (n, rnd.choice([6, 7, 75, 9])) if n else '0.6'
        v = sem.H.As(n + (1 if n >= 0 else -1), text)
        if rnd.random() < .5:
            h.perhaps(lambda: h.insert(t, [i], [[v]]))
        else:
            h.perhaps(lambda: h.update(t, [(i, v)], g.pred(h, t)))
    else:
        names = [t.cols[i].name for i in cols]
        row = [sem.H.lit(g.value(t.cols[i])) for i in cols]
        if rnd.random() < .5 or len(row) == 1:
            row.append(rnd.choice(row))
        else:
            row.pop()
        h.refuse('insert into %s (%s) values (%s)' % (t.name, ', '.join(names), ', '.join(row)))


def writes(h, g, rnd):
    tabs = []
    for name in rnd.sample(sem.G.TNAMES, rnd.choice([1, 1, 2])):
        t = g.table(name)
        t.cols = [sem.H.Col(c.name, c.typ, c.n, c.enc, rnd.random() < .1) for c in t.cols]
        for c in t.cols:
            if c.enc and c.typ == 'int' and rnd.random() < .3:
                c.enc = g.enc('int', arith=True)
        h.create(t)
        tabs.append(t)
    for _ in range(rnd.randint(6, 12)):
        t = rnd.choice(tabs)
        x = rnd.random()
        if rnd.random() < .12 and not any(c.notnull for c in t.cols):
            odd(h, g, rnd, t)
        elif x < .45:
            g.insert(h, t)
        elif x < .8:
            g.update(h, t)
        elif x < .93:
            g.delete(h, t)
        else:
            h.select(*g.query(h, t, limit=0))


def check(rep):
    sem.run(rep, [(writes, 500 if not rep.thorough else 4000)])
