"""Histories of a steady connection over the recording driver: one client, faults at chosen driver calls."""
import gc
import random
import sys

import fakedb
import sched as S                                              # noqa: F401  (driver calls are its switch points)

OPTIONS = {                 # what can go wrong at a driver call
    'open': ['OperationalError', 'ProgrammingError'],
    'session': ['lost', 'OperationalError', 'ProgrammingError'],
    'exec': ['lost', 'lost-after', 'InternalError', 'IntegrityError'],
    'cursor': ['lost', 'InterfaceError', 'ProgrammingError'],
    'begin': ['lost', 'ProgrammingError'],
    'cancel': ['lost'],
    'commit': ['lost', 'lost-after', 'OperationalError', 'IntegrityError'],
    'rollback': ['lost', 'OperationalError', 'ProgrammingError'],
    'ping': ['lost'],
}


class Aborted(Exception):
    pass


class Steady:
    """runs a script: list of steps (k, *args); the plan: {index of the driver call: fault}"""

    def __init__(self, id, prop, conf, script, plan):
        import steady_db
        self.id, self.conf, self.script, self.plan = id, conf, script, plan
        self.drv = drv = fakedb.Driver(ping=conf['ping'], begin=conf['begin'], cancel=conf['cancel'],
                                       as_module=conf['module'] == 'module')
        self.calls = []              # kinds of the driver calls, for the enumeration of plans
        drv.fault = self.fault
        self.ev = []
        drv.log = self
        failures = None
        if conf['failures'] == 'one':
            failures = drv.module.OperationalError
        elif conf['failures'] == 'two':
            failures = (drv.module.OperationalError, drv.module.InternalError)
        elif conf['module'] == 'bare':
            failures = (drv.module.OperationalError, drv.module.InterfaceError, drv.module.InternalError)
        drv.failures = failures
        creator = drv.creator()
        if conf['module'] == 'bare':
            del creator.dbapi
        drv.found = conf['module'] == 'function'
        self.kw = dict(maxusage=conf['maxusage'] or None, setsession=['session %d' % (i + 1) for i in range(conf['session'])],
                       failures=failures, ping=conf['pingbits'], closeable=True)
        self.connect = lambda: steady_db.connect(creator, self.kw['maxusage'], self.kw['setsession'], self.kw['failures'],
                                                 self.kw['ping'], self.kw['closeable'], 'arg', db='x')
        self.cfg = {'session': conf['session'], 'maxusage': conf['maxusage'] or 0, 'begin': conf['begin'],
                    'cancel': conf['cancel'], 'prop': prop}

    # the driver's log
    def append(self, e):
        self.ev.append({'what': 'driver', 'd': e['d'], 'c': e['c'], 'o': e['o'], 's': e['s'], 'v': e['v'], 'e': e['e'],
                        'sz': e['sz'], 'k': '', 'cur': 0, 'own': False})

    def fault(self, kind, con, arg):
        self.calls.append(kind)
        f = self.plan.get(len(self.calls) - 1)
        if f in (None, 'lost', 'lost-after'):
            return f
        return self.drv.make(f, f)

    def call(self, k, s=0, cur=0, sz=0):
        self.ev.append({'what': 'call', 'd': '', 'c': 0, 'o': '', 's': s, 'v': 0, 'e': 0, 'sz': sz, 'k': k, 'cur': cur, 'own': False})

    def ret(self, o, v=0, e=0, own=False):
        self.ev.append({'what': 'ret', 'd': '', 'c': 0, 'o': o, 's': 0, 'v': v, 'e': e, 'sz': 0, 'k': '', 'cur': 0, 'own': own})

    def do(self, k, f, **kw):
        """a call of the client; True if it was answered without an error"""
        self.call(k, **kw)
        try:
            v = f()
        except Exception as x:                         # noqa: BLE001
            n = getattr(x, 'number', 0)
            own = not n and isinstance(x, self.drv.module.Error)
            if not n and not own:
                raise
            self.ret('err', e=n, own=own)
            return False
        self.ret('ok', v=v if isinstance(v, int) and k in ('exec', 'fetch') else 0)
        return True

    def run(self):
        sys.modules[self.drv.module.__name__] = self.drv.module
        try:
            return self.client()
        finally:
            del sys.modules[self.drv.module.__name__]

    def client(self):
        con, curs, good, sizes, n = None, {}, {}, {}, 0

        def opened():
            nonlocal con
            con = self.connect()
        if not self.do('connect', opened):
            con = None
        for step in self.script:
            if con is None:
                break
            k = step[0]
            if k == 'cursor':
                def get():
                    curs[step[1]] = con.cursor()
                good[step[1]] = self.do('cursor', get, cur=step[1]) and None
                if good[step[1]] is False:
                    curs.pop(step[1], None)
            elif k in ('execute', 'executemany', 'callproc') and step[1] in curs:
                n += 1
                c = curs[step[1]]
                sz = 0
                if k != 'callproc' and len(step) > 2 or sizes.get(step[1]):
                    if k == 'callproc':
                        continue
                    c.setinputsizes([step[2] if len(step) > 2 else 1])
                    c.setoutputsize(1)
                    sz = (step[2] if len(step) > 2 else 1) + 1000
                good[step[1]] = self.do('exec', lambda: getattr(c, k)('stmt %d' % n), s=n, cur=step[1], sz=sz)
                sizes[step[1]] = sz and not good[step[1]]
            elif k == 'fetch' and good.get(step[1]):
                c = curs[step[1]]
                self.do('fetch', lambda: next(iter(c)) if n % 2 else c.fetchone(), cur=step[1])
            elif k in ('commit', 'rollback', 'begin', 'cancel'):
                self.do(k, getattr(con, k))
            elif k == 'with':
                con.__enter__()
                if step[1]:
                    self.do('commit', lambda: con.__exit__(None, None, None))
                else:
                    self.do('rollback', lambda: con.__exit__(ValueError, ValueError(), None))
            elif k == 'reset':
                self.do('reset', lambda: con._reset(step[1]))
            elif k == 'close':
                self.do('close', con.close)
            elif k == 'closecursor' and step[1] in curs:
                curs.pop(step[1]).close()
                good.pop(step[1], None)
                sizes.pop(step[1], None)
            elif k == 'ping' and self.conf['ping'] and con:
                self.do('ping', con.ping)
        self.call('end')
        for c in curs.values():
            c.close()
        curs.clear()
        get = opened = c = None
        if con is not None and self.conf['drop']:
            del con
            gc.collect()              # errors refer to frames that refer to it
        elif con is not None:
            con.close()
        self.ret('ok')
        return {'id': self.id, 'cfg': self.cfg, 'ev': self.ev}


def confs(rnd, focus):
    c = dict(ping=rnd.random() < .7, begin=rnd.random() < .6, cancel=rnd.random() < .5,
             module=rnd.choice(['module', 'module', 'function', 'bare']), failures=rnd.choice([None, None, None, 'one', 'two']),
             pingbits=rnd.choice([0, 1, 1, 2, 4, 6, 7]), drop=rnd.random() < .3)
    if focus == 'D05':
        c['maxusage'] = rnd.choice([1, 2, 2, 3, 4, 5])
        c['session'] = rnd.choice([0, 1, 2, 3])
    else:
        c['maxusage'] = rnd.choice([0, 0, 0, 1, 2, 3])
        c['session'] = rnd.choice([0, 0, 1, 2])
    return c


def script(rnd, n, focus):
    """a client that mostly keeps to the protocol: transactions, cursors used across reconnections"""
    s = [('cursor', 1)]
    for _ in range(n):
        r = rnd.random()
        cur = rnd.choice([1, 1, 1, 2, 3])
        if r < .14:
            s.append(('cursor', cur))
        elif r < .20:
            s.append(('begin',))
        elif r < .60:
            k = rnd.choice(['execute', 'execute', 'executemany', 'callproc'])
            s.append((k, cur) + ((rnd.randint(1, 9),) if rnd.random() < .25 and k != 'callproc' else ()))
            if rnd.random() < .2:
                s.append(('fetch', cur))
        elif r < .70:
            s.append(('commit',))
        elif r < .78:
            s.append(('rollback',))
        elif r < .81:
            s.append(('cancel',))
        elif r < .85:
            s.append(('with', rnd.random() < .5))
        elif r < .89:
            s.append(('reset', rnd.random() < .5))
        elif r < .92:
            s.append(('close',))
        elif r < .95:
            s.append(('closecursor', cur))
        else:
            s.append(('ping',))
    return s


def explore(seed, id, prop, n, faults, cap):
    """the histories of one script: without faults, and with every plan of at most `faults` faults (a sample of `cap`)"""
    rnd = random.Random('steady/%s/%s/%s' % (prop, seed, id))
    conf, sc = confs(rnd, prop), script(rnd, n, prop)
    out, todo, k = [], [{}], 0
    while todo and k < cap:
        plan = todo.pop(rnd.randrange(len(todo)) if len(todo) > 1 else 0)
        st = Steady(id * 1000 + k, prop, conf, sc, plan)
        try:
            tr = st.run()
        except Exception as e:                         # noqa: BLE001
            import traceback
            tr = {'id': id * 1000 + k, 'exception': traceback.format_exc()}
            if '/repo' not in tr['exception'].split('steady.py')[-1]:
                raise
        out.append((tr, conf, sc, {str(i): f for i, f in plan.items()}))
        k += 1
        if len(plan) < faults:
            last = max(plan) if plan else -1
            for i in range(last + 1, len(st.calls)):
                for f in OPTIONS.get(st.calls[i], ()):
                    todo.append(dict(plan, **{}) | {i: f})
    return out
