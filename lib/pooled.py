"""Histories of a connection pool: several threads under the deterministic scheduler, over the recording driver."""
import importlib
import os
import random
import sys

import fakedb
import sched

REPO = os.environ.get('VERIF_REPO', '/repo')
FAULTS = {'open': ['OperationalError'], 'exec': ['lost', 'InternalError'], 'cursor': ['lost'], 'commit': ['lost', 'OperationalError'],
          'rollback': ['lost', 'OperationalError', 'ProgrammingError'], 'ping': ['lost']}


def module():
    """dbutils with the scheduler's locks"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for m in [m for m in sys.modules if m == 'dbutils' or m.startswith('dbutils.')]:
        del sys.modules[m]
    return importlib.import_module('dbutils.pooled_db')


class Client:
    def __init__(self):
        self.handles = []


class Pool:
    def __init__(self, id, prop, rnd):
        self.id, self.rnd = id, rnd
        self.ops, self.ev = [], []
        self.conf = c = self.configuration(rnd, prop)
        self.drv = fakedb.Driver(threadsafety=c['threadsafety'], begin=c['begin'], cancel=True, as_module=c['as_module'])
        self.drv.found = True
        self.drv.fault = self.fault
        self.rate, self.faults, self.kills = 0, 0, 0
        self.log = self.drv.log
        sys.modules[self.drv.module.__name__] = self.drv.module
        self.pdb = module()
        self.pool = self.pdb.PooledDB(self.drv.creator(), c['mincached'], c['maxcached'],
                                      c['maxshared'], c['maxconnections'], c['blocking'], None, ['session 1'] if c['session'] else None,
                                      c['reset'], None, c['ping'])
        self.start = sum(x.open for x in self.drv.cons)
        self.cfg = {'prop': prop, 'maxconnections': c['maxconnections'], 'blocking': bool(c['blocking']),
                    'maxshared': c['maxshared'] if c['threadsafety'] > 1 else 0,
                    'maxcached': max(c['maxcached'], c['mincached']) if c['maxcached'] else 0,
                    'reset': bool(c['reset']), 'ping': bool(c['ping'] & 1)}
        self.names, self.shutting = 0, False
        self.clients = [Client() for _ in range(c['threads'])]
        self.closing = set()          # handles being given back
        self.by = {}                  # handle name -> (handle, shared, last known connection)

    @staticmethod
    def configuration(rnd, prop):
        c = dict(threadsafety=rnd.choice([1, 2, 2]), mincached=rnd.choice([0, 0, 1, 2]), maxcached=rnd.choice([0, 0, 1, 2]),
                 maxshared=rnd.choice([0, 0, 1, 1, 2]), maxconnections=rnd.choice([1, 1, 2, 2, 3, 3, 0]),
                 blocking=rnd.random() < (.85 if prop == 'D03' else .5), reset=rnd.choice([True, True, False]),
                 ping=rnd.choice([0, 1, 1, 1, 7]), begin=rnd.random() < .7, session=rnd.random() < .2, as_module=rnd.random() < .7,
                 threads=rnd.choice([2, 3, 3, 4]))
        c['as_module'] |= c['threadsafety'] < 2
        if c['maxconnections']:
            c['maxconnections'] = max(c['maxconnections'], c['maxcached'], c['maxshared'], c['mincached'])
        return c

    def fault(self, kind, con, arg):
        if self.rate and kind in FAULTS and self.rnd.random() < self.rate:
            if self.cfg['maxshared'] and (kind in ('ping', 'open') or not self.cfg['ping']):
                return None           # a shared connection that is dead would be replaced by several holders at once
            if con is not None and any(s and c == con.id for _, s, c in self.by.values()):
                return None           # shared connections are not replaced under their other holders
            if kind in ('open', 'ping', 'cursor'):
                self.faults += 1
            f = self.rnd.choice(FAULTS[kind])
            return f if f.startswith('lost') else self.drv.make(f, f)
        return None

    # ---- recording
    def call(self, k, h=0, sh=False):
        self.ops.append(dict(k=k, h=h, sh=sh, o='', c=0, faulty=False, begun=False, dirty=False, seen=False, dead=False, idle=0))
        self.ev.append({'call': True, 'n': len(self.ops)})
        return len(self.ops)

    def ret(self, n, o, **kw):
        self.ops[n - 1].update(kw, o=o)
        self.ev.append({'call': False, 'n': n})

    def now(self, k, **kw):
        o = kw.pop('o', 'ok')
        sh = kw.pop('sh', False)
        self.ret(self.call(k, sh=sh), o, **kw)

    def outcome(self, x):
        m = self.drv.module
        if isinstance(x, m.Error):
            return 'fail' if x.failure else 'err'
        return 'toomany' if type(x).__name__ == 'TooManyConnections' else 'invalid'

    # ---- the client's operations
    def get(self, cl, sh, how=0):
        self.names += 1
        name = self.names
        sh &= not self.shutting
        mode = bool(sh and self.cfg['maxshared'])
        n = self.call('get', name, mode)
        f = self.faults + self.kills
        try:
            h = self.pool.connection(sh) if sh or how else self.pool.dedicated_connection()
            if how:
                h.__enter__()
        except sched.Deadlock:
            raise
        except Exception as x:                         # noqa: BLE001
            o = self.outcome(x)
            self.ret(n, 'err' if o == 'fail' else o, faulty=self.faults + self.kills > f, x='%s %s' % (type(x).__name__, x))
            return None
        c = h.ping('who')
        d = self.drv.cons[c - 1]
        self.by[name] = (h, mode, c)
        self.ret(n, 'ok', c=c, begun=d.begun, dirty=bool(d.work), seen=d.seen, dead=d.lost or not d.open,
                 faulty=self.faults + self.kills > f)
        cl.handles.append(name)
        return name

    def use(self, name, k):
        h, sh, c = self.by[name]
        n = self.call(k, name, sh)
        o = 'ok'
        try:
            if k == 'exec':
                cu = h.cursor()
                cu.execute('stmt %d' % n)
                cu.close()
            else:
                getattr(h, k)()
        except sched.Deadlock:
            raise
        except Exception as x:                         # noqa: BLE001
            o = self.outcome(x)
            x.__traceback__ = None
        if o != 'invalid':
            c = h.ping('who')
            self.by[name] = (h, sh, c)
        self.ret(n, o, c=c)

    def back(self, cl, name, how):
        n = self.call('back', name)
        if how == 'drop' and self.drv.errors:
            how = 'close'             # errors refer to frames that refer to the handle
        h, sh, c = self.by[name]
        if how != 'drop':
            self.closing.add(name)
        try:
            if how == 'exit':
                h.__exit__(None, None, None)
            elif how == 'drop' and name in cl.handles:
                self.by[name] = (None, sh, 0)
                del h
            else:
                h.close()
                self.by[name] = (h, sh, 0)
        except sched.Deadlock:
            raise
        except Exception as x:                         # noqa: BLE001
            self.ret(n, 'err')
            return
        self.closing.discard(name)
        self.ret(n, 'ok')

    def shut(self):
        shared = [c for h, s, c in self.by.values() if s and c]
        if len(set(shared)) < len(shared) or self.pending():
            return                    # would be reopened by several holders at once
        self.shutting = True
        n = self.call('shut')
        self.kills += 1               # whatever is shared at the moment is closed
        self.pool.close()
        self.kills += 1
        self.shutting = False
        self.ret(n, 'ok')

    def pending(self):
        return any(o['k'] == 'get' and o['sh'] and not o['o'] for o in self.ops)

    def kill(self):
        """the server ends a connection that is idle or used by one holder"""
        cons = [d for d in self.drv.cons if d.open and not d.lost and not any(s and c == d.id for _, s, c in self.by.values())]
        if cons and not self.pending() and (self.cfg['ping'] or not self.cfg['maxshared']):
            self.rnd.choice(cons)._gone()
            self.kills += 1

    def script(self, cl, steps):
        rnd = random.Random(self.rnd.random())

        def run():
            for _ in range(steps):
                r = rnd.random()
                mine = [x for x in cl.handles]
                if r < .12 and mine:
                    x = rnd.choice(mine)
                    how = rnd.choice(['close', 'close', 'exit', 'drop'])
                    self.back(cl, x, how)
                    if x in cl.handles:
                        cl.handles.remove(x)
                    if self.by[x][0] is not None and rnd.random() < .4:
                        if rnd.random() < .5:
                            self.use(x, rnd.choice(['begin', 'exec', 'commit']))
                        else:
                            self.back(cl, x, rnd.choice(['close', 'exit']))
                elif not mine or r < (.2 if not self.conf['blocking'] or not self.conf['maxconnections'] else .14):
                    self.get(cl, rnd.random() < .6, rnd.random() < .3)
                elif r < .26:
                    self.kill()
                elif r < .28:
                    self.shut()
                elif r < .32:
                    # somebody else gives the handle back as well
                    if self.closing:
                        self.back(cl, rnd.choice(sorted(self.closing)), 'close')
                else:
                    self.use(rnd.choice(mine), rnd.choice(['begin', 'exec', 'exec', 'exec', 'commit', 'rollback', 'cancel']))
            for x in list(cl.handles):
                if rnd.random() < (.95 if self.conf['blocking'] else .75):
                    cl.handles.remove(x)
                    self.back(cl, x, rnd.choice(['close', 'exit']))
        return run

    def rest(self):
        held = {c for h, s, c in self.by.values() if h is not None and c}
        self.now('rest', idle=sum(d.open and d.id not in held for d in self.drv.cons))

    def phase(self, fns):
        rnd = self.rnd
        if rnd.random() < .5:
            policy = sched.randomly(rnd, rnd.choice([.5, .2, .1, .03]))
        else:
            policy = sched.preempt(rnd, rnd.randrange(len(fns)), {rnd.randrange(len(fns)): rnd.randint(1, 60) for _ in range(2)})
        s = sched.Scheduler(policy, watch=[os.path.join(REPO, 'dbutils')])
        s.limit = 10 ** 5
        try:
            s.run(fns)
        except sched.Deadlock:
            for op in [o for o in self.ops if o['k'] == 'get' and not o['o']]:
                self.now('stuck', sh=op['sh'])
            if not any(o['k'] == 'stuck' for o in self.ops):
                raise
            return False
        self.switches = getattr(self, 'switches', 0) + len(s.trace)
        return True

    def drain(self, cl):
        def run():
            for x in [n for n, (h, s, c) in self.by.items() if h is not None and c]:
                self.back(cl, x, 'close')
            n = self.conf['maxconnections'] or 3
            got = [self.get(cl, False) for _ in range(n)]
            if self.conf['maxconnections'] and not self.conf['blocking']:
                got.append(self.get(cl, False))
                got.append(self.get(cl, True))
            for x in got:
                x and self.use(x, 'exec')
            for x in got:
                x and self.back(cl, x, 'close')
        return run

    def run(self):
        try:
            if self.conf['mincached'] > (self.cfg['maxcached'] or 99) or self.start != self.conf['mincached']:
                self.now('rest', idle=10 ** 6)
            ok = True
            for k in range(self.rnd.randint(1, 3)):
                self.rate = self.rnd.choice([0, 0, .05, .15])
                ok = self.phase([self.script(c, self.rnd.randint(3, 9)) for c in self.clients])
                if not ok:
                    break
                self.rest()
            if ok:
                self.rate = 0
                if self.phase([self.drain(Client())]):
                    self.rest()
        finally:
            sys.modules.pop(self.drv.module.__name__, None)
        return {'id': self.id, 'cfg': self.cfg, 'op': self.ops, 'ev': self.ev}


def one(seed, id, prop):
    rnd = random.Random('pooled/%s/%s/%s' % (prop, seed, id))
    with sched.primitives():
        p = Pool(id, prop, rnd)
        try:
            tr = p.run()
        except sched.Deadlock as e:
            return {'stuck': str(e)}, p.conf, 0
        p.by.clear()
        return tr, p.conf, getattr(p, 'switches', 0)
