"""P01 filtered reads equal plaintext reads"""
import sem


def reads(h, g, rnd):
    t = g.table()
    h.create(t)
    g.insert(h, t, nmax=6, all_cols=True)
    for _ in range(rnd.randint(8, 14)):
        x = rnd.random()
        if x < .25:
            g.insert(h, t)
        elif x < .32:
            g.update(h, t)
        elif x < .36:
            g.delete(h, t)
        else:
            h.select(*g.query(h, t))


def check(rep):
    sem.run(rep, [(reads, 400 if not rep.thorough else 4000)])
