"""P10 backend failures are reported and leave no partial effect"""
import random

import sem

H = sem.H


def errors():
    from mysql.connector import errors as E
    return [E.InternalError(msg='Deadlock found when trying to get lock', errno=1213),
            E.DatabaseError(msg='Lock wait timeout exceeded', errno=1205),
            E.DataError(msg='Out of range value', errno=1264),
            E.ProgrammingError(msg='SELECT command denied', errno=1142),
            E.OperationalError(msg='Server shutdown in progress', errno=1053),
            E.InterfaceError(msg='Bad handshake', errno=2012),
            E.NotSupportedError(msg='not supported', errno=1235)]


def possible(f):
    """a server fails neither a rollback nor a ping except by losing the connection"""
    def g(n, kind, sql):
        x = f(n, kind, sql)
        return 'lost' if x and kind in ('rollback', 'ping') else x
    return g


def plan(rnd):
    return possible(some(rnd))


def some(rnd):
    """one failure at one backend call, several, or all calls of one kind until the statement ends"""
    x = rnd.random()
    what = [rnd.choice(['lost', 'lost', 'lost-after', rnd.choice(errors())]) for _ in range(12)]
    if x < .55:
        k = rnd.randint(1, 7)
        return lambda n, kind, sql: what[0] if n == k else None
    if x < .75:
        ks = {rnd.randint(1, 9) for _ in range(3)}
        return lambda n, kind, sql: what[n % 12] if n in ks else None
    if x < .9:
        kd = rnd.choice(['execute', 'cursor', 'commit', 'fetch', 'ping', 'rollback', 'connect'])
        k = rnd.choice([1, 1, 2])
        state = [0]

        def f(n, kind, sql):
            if kind == kd:
                state[0] += 1
                return what[0] if state[0] == k else None
        return f
    kds = rnd.sample(['execute', 'cursor', 'commit', 'fetch', 'ping', 'connect'], rnd.randint(1, 3))
    return lambda n, kind, sql: what[0] if kind in kds else None


def table(g, rnd, name=None):
    t = g.table(name, ncols=rnd.randint(1, 4))
    for c in t.cols:
        if c.enc and c.typ == 'int' and rnd.random() < .4:
            c.enc = g.enc('int', arith=True)
    return t


def statement(h, g, rnd, t):
    ari = any(c.enc and c.enc.get('arithmetic') for c in t.cols)
    x = rnd.random()
    if x < .4:
        g.insert(h, t)
    elif x < .55:
        g.update(h, t)
    elif x < .65:
        g.delete(h, t)
    elif x < .85 or not ari:
        h.select(*g.query(h, t, order=.2))
    else:
        h.select(*g.aggquery(h, t, funcs=('count', 'max', 'sum', 'avg')))


def one_by_one(h, g, rnd):
    tabs = [table(g, rnd, n) for n in rnd.sample(sem.G.TNAMES, rnd.choice([1, 2]))]
    for t in tabs:
        h.create(t)
    h.store = 'always'
    for _ in range(rnd.randint(10, 18)):
        x = rnd.random()
        if x < .55:
            h.plan = plan(rnd)
        elif x < .62:
            # the server closes the idle connections
            dice = random.Random(rnd.random())
            for c in list(h.w.server.open_conns.values()):
                if c.key[2] != 'eulerdb_schema' and dice.random() < .8:
                    c._kill()
        t = rnd.choice(tabs)
        if rnd.random() < .12:
            definition(h, g, rnd, t)
        else:
            statement(h, g, rnd, t)


def definition(h, g, rnd, t):
    """tables go and come back: a refused DROP or CREATE changes nothing, neither does one that fails half way leave a mess"""
    for what in rnd.choice([['drop'], ['drop', 'create'], ['create'], ['drop', 'drop', 'create', 'create']]):
        h.plan, h.ddl = h.plan or (plan(rnd) if rnd.random() < .6 else None), True
        if what == 'drop':
            h.drop(t)
        else:
            h.create(t, ine=rnd.random() < .3)
        h.ddl = False
        if rnd.random() < .6:
            h.probe()
        statement(h, g, rnd, t)


def storm(h, g, rnd):
    """many failures in a row must not use the connections up"""
    t = table(g, rnd)
    h.create(t)
    h.w.server.max_connections = 12
    kd, k = rnd.choice(['execute', 'execute', 'cursor', 'commit', 'fetch', 'rollback', 'ping']), rnd.randint(1, 2)
    what = rnd.choice(['lost', 'lost-after', rnd.choice(errors())])
    h.store = False
    for _ in range(18):
        state = [0]

        def f(n, kind, sql, state=state):
            if kind == kd:
                state[0] += 1
                return what if state[0] <= k else None
        h.plan = possible(f)
        h.select(*g.query(h, t, order=.2))
    h.store = 'always'
    for _ in range(4):
        statement(h, g, rnd, t)


def check(rep):
    n = 1 if not rep.thorough else 10
    sem.run(rep, [(one_by_one, 350 * n), (storm, 40 * n)])
