"""P08 the catalog survives a proxy restart"""
import sem

H = sem.H
# the names of some are patterns or beginnings of others
NAMES = ['points', 'Users', 'POINTS', 'users', 'users_', 'usersx', 'orders_', 'ordersx', 'T_big', 'Tabig', 'items', 'item', 'log1']


def restarts(h, g, rnd):
    tabs = []
    for name in rnd.sample(NAMES, rnd.choice([2, 3, 4])):
        t = g.table(name)
        for c in t.cols:
            if c.enc and c.typ == 'int' and rnd.random() < .3:
                c.enc = g.enc('int', arith=True)
        if rnd.random() < .4:
            i = rnd.randrange(len(t.cols))
            if t.cols[i].typ == 'int':
                t.pk = [i]
                t.cols[i].notnull = True
        tabs.append(t)
    live = []
    for _ in range(rnd.randint(14, 22)):
        x = rnd.random()
        if x < .2 or not live:
            t = rnd.choice(tabs)
            e = h.create(t, ine=rnd.random() < .3)
            if t not in live:
                live.append(t)
        elif x < .28:
            t = rnd.choice(live)
            h.drop(t)
            live.remove(t)
            if rnd.random() < .5:
                # another layout next time
                i = tabs.index(t)
                tabs[i] = t2 = H.Table(t.name, g.table(t.name).cols)
        elif x < .48:
            g.insert(h, rnd.choice(live))
        elif x < .55:
            g.update(h, rnd.choice(live))
        elif x < .58:
            g.delete(h, rnd.choice(live))
        elif x < .75:
            t = rnd.choice(live)
            ari = any(c.enc and c.enc.get('arithmetic') for c in t.cols)
            if rnd.random() < .6:
                h.select(*g.query(h, t, order=.3))
            else:
                h.select(*g.aggquery(h, t, funcs=('count', 'max', 'min', 'sum', 'avg') if ari else ('count', 'max', 'min')))
        elif x < .87:
            h.restart()
        else:
            h.probe()
        if rnd.random() < .1:
            h.probe()
            h.restart()
            h.probe()


def check(rep):
    sem.run(rep, [(restarts, 200 if not rep.thorough else 2000)])
