"""P09 the catalog and the backend agree after failed, interrupted or repeated DDL"""
import random
from concurrent.futures import ThreadPoolExecutor

import p10
import sem
import tlc

H = sem.H
KINDS = ['reject', 'lost', 'lost-after', 'crash', 'down']


def fault(kind, k, err):
    """kind of failure at backend call k of the statement"""
    def f(n, call, sql):
        if n != k and not (kind == 'down' and n > k):
            return None
        if kind == 'crash':
            return 'crash'
        if kind == 'reject' and call not in ('rollback', 'ping'):
            return err
        return 'lost-after' if kind == 'lost-after' else 'lost'
    return f


def ddl(h, what, t, plan):
    h.ddl, h.plan = True, plan
    e = h.drop(t) if what == 'drop' else h.create(t, ine=what == 'ine')
    h.ddl = False
    return e


def settle(h, g, rnd, tabs, after):
    """what clients find after the failed statement"""
    if h.crashed or after == 'restart':
        h.restart()
    h.probe()
    for t in tabs:
        if rnd.random() < .5:
            h.select(*g.query(h, t, order=.2))
    for t in tabs:
        # whatever happened to it, a table can be dropped and created again
        x = rnd.random()
        if x < .5:
            h.drop(t)
        if x < .8:
            h.create(t, ine=rnd.random() < .3)
            if rnd.random() < .7:
                g.insert(h, t)
    if rnd.random() < .3:
        h.restart()
    h.probe()
    for t in tabs:
        g.insert(h, t)
        h.select(*g.query(h, t, order=.2))


def setting(h, g, rnd, cold, exists):
    tabs = [p10.table(g, rnd, n) for n in rnd.sample(sem.G.TNAMES, rnd.choice([1, 2, 3]))]
    t = tabs[0]
    h.tables += tabs
    for u in tabs[1:]:
        h.create(u)
        if rnd.random() < .7:
            g.insert(h, u)
    if exists:
        h.create(t)
        if rnd.random() < .7:
            g.insert(h, t)
    if cold:
        h.restart()
    else:
        h.select(*g.query(h, tabs[-1], order=.2))
    return tabs, t


CASES = [(w, x) for w in ('create', 'ine', 'drop') for x in (False, True)]
# a warm proxy makes 9 backend calls in a CREATE or DROP, a freshly started one up to 25, the first 11 to fill the pool
WARM, COLD = 9, list(range(11, 26))
CALLS = WARM + len(COLD)


def at_call(h, g, rnd):
    """every kind of failure at every backend call of every kind of DDL statement: numbered by the history"""
    i = h.id
    what, exists = CASES[i % 6]
    kind = KINDS[i // 6 % 5]
    k = i // 30 % CALLS
    tabs, t = setting(h, g, rnd, k >= WARM, exists)
    k = k + 1 if k < WARM else COLD[k - WARM]
    ddl(h, what, t, fault(kind, k, rnd.choice(p10.errors())))
    settle(h, g, rnd, tabs, rnd.choice(['', '', 'restart']))


def storms(h, g, rnd):
    """DDL and other statements with failures now and then"""
    tabs = [p10.table(g, rnd, n) for n in rnd.sample(sem.G.TNAMES, rnd.choice([2, 3]))]
    h.tables += tabs
    for _ in range(rnd.randint(10, 16)):
        t = rnd.choice(tabs)
        x = rnd.random()
        if x < .6:
            what = rnd.choice(['create', 'create', 'ine', 'drop', 'drop'])
            ddl(h, what, t, fault(rnd.choice(KINDS), rnd.randint(1, 12), rnd.choice(p10.errors()))
                if rnd.random() < .6 else None)
            if h.crashed:
                h.restart()
        elif x < .75:
            g.insert(h, t)
        elif x < .8:
            h.restart()
        elif x < .9:
            h.select(*g.query(h, t, order=.2))
        else:
            h.probe()
    h.probe()


CFG = """SPECIFICATION Spec
CONSTANTS Tables = {%s} Pinned = "p" Pin = "z" Clients = {1, 2} Faults = %d Requests = %d Variant = "%s"
INVARIANTS Reads Behind Apart
PROPERTIES Refines
CHECK_DEADLOCK FALSE
"""


def design(rep):
    """the order of the changes, with failures and deaths anywhere, by itself"""
    size = ('"p", "q"', 3, 6) if not rep.thorough else ('"p", "q", "r"', 3, 7)
    r = tlc.model('ProxyDesign', CFG % (size + ('right',)))
    rep.tlc(r)
    rep.add('states_of_the_design', r.distinct)
    with ThreadPoolExecutor(5) as pool:
        for f in [pool.submit(tlc.broken, 'ProxyDesign', CFG % ('"p", "q"', 1, 4, v), workers=1, heap='2g')
                  for v in ('memory-first', 'drop-forgets', 'trusting', 'catalog-first', 'unlocked')]:
            f.result()
            rep.add('broken_designs_rejected', 1)


def check(rep):
    design(rep)
    n = 1 if not rep.thorough else 8
    sem.run(rep, [(at_call, 30 * CALLS * n), (storms, 150 * n)])
