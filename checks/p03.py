"""P03 MIN, MAX, COUNT(*), ORDER BY follow the plaintext order"""
import sem


def orders(h, g, rnd):
    t = g.table(types=('int', 'int', 'float', 'double', 'varchar'))
    if all(c.text for c in t.cols):
        t.cols[0] = g.col(t.cols[0].name, ('int', 'float', 'double'), .9)
    h.create(t)
    g.insert(h, t, nmax=8, all_cols=True, null=rnd.choice([0, .3]))
    for _ in range(rnd.randint(8, 14)):
        x = rnd.random()
        if x < .2:
            g.insert(h, t)
        elif x < .25:
            g.update(h, t)
        elif x < .28:
            g.delete(h, t)
        elif x < .7:
            h.select(*g.query(h, t, order=1, limit=.4))
        else:
            h.select(*g.aggquery(h, t))


def check(rep):
    sem.run(rep, [(orders, 400 if not rep.thorough else 4000)])
