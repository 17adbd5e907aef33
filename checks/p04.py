"""P04 homomorphic SUM and AVG"""
import sem


def sums(h, g, rnd):
    tabs = []
    for name in rnd.sample(sem.G.TNAMES, rnd.choice([1, 1, 2])):
        t = g.table(name)
        for i in rnd.sample(range(len(t.cols)), rnd.choice([1, 1, 2]) if len(t.cols) > 1 else 1):
            t.cols[i] = sem.H.Col(t.cols[i].name, 'int', None, g.enc('int', arith=True))
        h.create(t)
        g.insert(h, t, nmax=8, all_cols=True, null=rnd.choice([0, .2]))
        tabs.append(t)
    for _ in range(rnd.randint(6, 12)):
        t = rnd.choice(tabs)
        x = rnd.random()
        if x < .15:
            g.insert(h, t)
        elif x < .25:
            g.update(h, t)
        elif x < .3:
            g.delete(h, t)
        elif x < .35:
            h.select(*g.query(h, t))
        else:
            h.select(*g.aggquery(h, t, funcs=('sum', 'avg', 'sum', 'avg', 'count', 'max', 'min')))


def check(rep):
    sem.run(rep, [(sums, 200 if not rep.thorough else 2000)])
