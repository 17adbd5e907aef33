"""P11 concurrent requests do not influence each other's results"""
import copy
import random

import par
import p10
import p12
import sched
import sem
import tlc

H, G, W = sem.H, sem.G, sem.W
SITES = {'n': 350}


class Client(H.History):
    """the requests of one client of a batch; tables, values and tickets are those of the history"""
    def __init__(self, h, n):
        self.__dict__.update(h.__dict__)
        self.n = n
        self.events, self.sqls = [], []
        self.src = h.home

    def ev(self, op, r, **kw):
        e = H.History.ev(self, op, r, **kw)
        e['client'] = self.n
        return e


class Batch:
    """requests that overlap"""
    def __init__(self, h, clock):
        self.h, self.clock, self.clients = h, clock, []

    def client(self, ops):
        """ops: functions of a client, one request each"""
        c = Client(self.h, len(self.clients))

        def body():
            for op in ops:
                self.clock[0] += 1
                inv = self.clock[0]
                n = len(c.events)
                op(c)
                self.clock[0] += 1
                for e in c.events[n:]:
                    e['inv'], e['ret'] = inv, self.clock[0]
        c.body = body
        self.clients.append(c)

    def run(self, policy):
        s = sched.Scheduler(policy, watch=[W.REPO + '/' + x for x in W.FRESH], skip=('/compile/', '/lex_module/'))
        server = self.h.w.server
        server.observer = lambda kind, conn, info: sched.point(('sim', kind))
        server.waiter = lambda until: sched.wait(('sim', 'lock'), until)
        stuck = None
        try:
            tasks = s.run([c.body for c in self.clients])
            SITES['n'] = max([SITES['n']] + [len(t.sites) for t in tasks])
        except sched.Deadlock as e:
            stuck = str(e)
        finally:
            server.observer = server.waiter = None
        evs = sorted([e for c in self.clients for e in c.events], key=lambda e: e['inv'])
        base = len(self.h.events)
        for i, e in enumerate(evs):
            e['n'] = len(evs)
            # an encrypt-only request asks the catalog, not the backend: while a table is dropped it may still be
            # answered after another client was told that the table is gone
            e['pre'] = [base + j + 1 for j, f in enumerate(evs) if f['ret'] < e['inv']
                        and (f['client'] == e['client'] or 'encrypt' not in (e['op'], f['op']))]
        self.h.events += evs
        for e in evs:
            c = self.clients[e['client']]
            self.h.sqls.append(('%d: %s' % (e['client'], c.sqls[c.events.index(e)][0]), {}))
        return stuck, s


class Stuck(Exception):
    pass


def single(h, n0):
    """the requests since n0 were made one after the other"""
    for e in h.events[n0:]:
        e.update(n=1, pre=[], client=-1)


def rekey(g, t):
    for c in t.cols:
        if c.enc:
            c.enc['key'] = g.rnd.choice(['abcdefgopqrst', 'k1', 'another key', 'third'])


def replace(g, t):
    def create(c):
        rekey(g, t)
        c.create(t)
    return [lambda c: c.drop(t), create]


def operation(g, rnd, tabs, state, ddl):
    t = rnd.choice(tabs)
    ari = any(c.enc and c.enc.get('arithmetic') for c in t.cols)
    x = rnd.random()
    if x < .14:
        return lambda c: g.insert(c, t)
    if x < .24:
        return lambda c: g.update(c, t)
    if x < .3:
        return lambda c: g.delete(c, t)
    if x < .48:
        return lambda c: c.select(*g.query(c, t, order=.3))
    if x < .72:
        return lambda c: c.select(*g.aggquery(c, t, funcs=('sum', 'avg', 'count') if ari else ('count', 'max', 'min')))
    if x < .86:
        def deferred(c):
            sql, q, cols, hdr = g.query(c, t, order=.2) if rnd.random() < .7 else g.aggquery(c, t)
            id, stmt = c.encrypt(sql, q, compare=False)
            if id:
                state['open'].append((id, stmt, q, cols, hdr, t))
        return deferred
    if x < .93 and state['fetched']:
        f = rnd.choice(state['fetched'])
        return lambda c: c.decrypt(*f)
    if not ddl:
        return lambda c: c.select(*g.query(c, t))
    if x < .97:
        return lambda c: c.drop(t)

    def create(c):
        rekey(g, t)
        c.create(t, ine=rnd.random() < .5)
    return create


def fill(h, g, rnd, tabs, state):
    """what the batch left, and what is needed for the next"""
    n0 = len(h.events)
    h.sqls.append(('-- stored', {}))
    h.last_log = []
    h.store = True
    h.ev('peek', ('ok', None, None))
    h.store = False
    for t in tabs:
        if t.name not in h.catalog():
            rekey(g, t)
            h.create(t)
        if rnd.random() < .3:
            g.insert(h, t, nmax=5)
    for id, stmt, q, cols, hdr, t in state['open']:
        if t.name in h.catalog() and stmt.split(' ')[0].lower() == 'select':
            try:
                rows = h.fetch(id, stmt)
            except W.mysqlsim.E.Error:
                # encrypted for an earlier table of the name
                continue
            state['fetched'].append((id, rows, q, cols, hdr))
    state['open'] = []
    state['fetched'] = state['fetched'][-4:]
    single(h, n0)


def concurrent(h, g, rnd, ddl):
    names = rnd.sample(G.TNAMES, rnd.choice([1, 2, 2, 3]))
    tabs = []
    for n in names:
        t = p12.layout(g, rnd, n, tabs[0] if tabs else None)
        tabs.append(t)
        h.create(t)
        g.insert(h, t, nmax=5)
        g.insert(h, t, nmax=5)
    h.store = False
    single(h, 0)
    clock, state = [0], {'open': [], 'fetched': []}
    for _ in range(rnd.randint(8, 12)):
        if rnd.random() < .2:
            n0 = len(h.events)
            h.restart()
            single(h, n0)
            if rnd.random() < .8:
                state['fetched'] = []
        b = Batch(h, clock)
        some = tabs
        if ddl and rnd.random() < .4:
            # the table is replaced while others use it
            some = [rnd.choice(tabs)]
            b.client([replace(g, some[0])[k] for k in range(2)])
        for _ in range(rnd.choice([2, 2, 2, 3, 4]) - len(b.clients)):
            b.client([operation(g, rnd, some, state, ddl) for _ in range(rnd.choice([1, 1, 1, 2]))])
        k = len(b.clients)
        if rnd.random() < .7:
            cuts = {i: rnd.randint(1, SITES['n']) for i in rnd.sample(range(k), rnd.choice([1, 1, min(2, k)]))}
            policy = sched.preempt(rnd, next(iter(cuts)), cuts)
        else:
            policy = sched.randomly(rnd, rnd.choice([.5, .1, .02, .005]))
        stuck, s = b.run(policy)
        if stuck:
            raise Stuck(stuck, [x for x, _ in h.sqls])
        h.switches.append(len(s.trace))
        fill(h, g, rnd, tabs, state)


def apart(h, g, rnd):
    concurrent(h, g, rnd, False)


def ddl(h, g, rnd):
    concurrent(h, g, rnd, True)


def one(profile, seed, id):
    rnd = random.Random('%s/%s/%d' % (profile.__name__, seed, id))
    with W.World(shuffle=random.Random(seed * 1000003 + id)) as w, W.silence():
        w.server.add_db('points')
        # what outlives the proxy has real locks
        w.boot()
        return managed(profile, rnd, w, id)


def managed(profile, rnd, w, id):
    with sched.primitives():
        w.boot()
        h = H.History(w, id)
        h.switches = []
        try:
            profile(h, G.Gen(rnd), rnd)
        except Stuck as e:
            return ('stuck', e.args, None, None)
        return h.finish(), [s for s, _ in h.sqls], [e['err'] for e in h.events], sum(h.switches)


def corrupt(t, k):
    t = copy.deepcopy(t)
    t['id'] += 10 ** 6
    evs = [e for e in t['ev'] if e['status'] == 'ok' and (e.get('res') or e.get('aggs'))]
    if not evs:
        return None
    e = evs[k % len(evs)]
    if e.get('res'):
        e['res'][0][0] = H.UNKNOWN
    else:
        e['aggs'][0].update(v=H.UNKNOWN, b=H.big(10 ** 60), null=False)
    return t


def check(rep):
    n = 110 if not rep.thorough else 1600
    args = [(apart, rep.seed, i) for i in range(n)] + [(ddl, rep.seed, n + i) for i in range(n)]
    traces, info = [], {}
    for a, (st, val) in zip(args, par.pmap(one, args, chunk=1)):
        if st == 'repo':
            rep.violation('exception', {'profile': a[0].__name__, 'seed': a[1], 'id': a[2], 'exception': val})
        elif st != 'ok':
            rep.trouble('history %s/%s: %s' % (a[0].__name__, a[2], val))
        elif val[0] == 'stuck':
            rep.violation('never-answered', {'profile': a[0].__name__, 'seed': a[1], 'id': a[2], 'waiting': val[1][0],
                                             'statements': val[1][1]})
        else:
            traces.append(val[0])
            info[a[2]] = (a[0].__name__, val[1], val[2], val[0])
            rep.add('context_switches', val[3])
    probes = [p for p in (corrupt(t, t['id']) for t in traces[:20]) if p]
    bad, r = tlc.validate('EulerConc', traces + probes, search=True)
    rep.tlc(r)
    rep.add('traces_validated_against_impl', len(traces))
    rep.add('client_statements', sum(len(t['ev']) for t in traces))
    rep.add('batches', sum(1 for t in traces for i, e in enumerate(t['ev']) if e['n'] > 1 and (i == 0 or not e['pre'])))
    rep.probed(probes, bad, 10 ** 6)
    for t in traces:
        for e in t['ev']:
            if e['n'] > 1:
                rep.add('op_' + e['op'] + ('' if e['status'] == 'ok' else '_err'))
    for i in sorted(info)[:2]:
        rep.sample({'profile': info[i][0], 'statements': info[i][1][:12]})
    for i, (clause, pos) in sorted(bad.items()):
        if i in info:
            name, sqls, errs, tr = info[i]
            n = tr['ev'][pos - 1]['n']
            rep.violation(clause, {'profile': name, 'id': i, 'event': pos, 'batch': [
                dict(statement=s, error=x, observed=e) for s, x, e in list(zip(sqls, errs, tr['ev']))[max(0, pos - n):pos + n]],
                'statements': sqls[:pos + n]})
