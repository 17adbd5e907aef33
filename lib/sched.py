"""A deterministic scheduler for threads that run the code under test.

One thread runs at a time.  It may be switched off at every line of the watched files, at every call into the
simulated server and at every operation of a lock.  The order is chosen by a policy, so that a run can be repeated.
"""
import contextlib
import gc
import sys
import threading
import _thread


class Deadlock(Exception):
    """requests that can never be answered"""


current = None                  # the running Scheduler
ids = {}                        # thread ident -> task


class Task:
    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.until = None       # predicate it waits for
        self.timed = False      # the wait may end by itself
        self.done = False
        self.error = None
        self.sites = set()
        self.steps = 0
        self.masked = 0


class Scheduler:
    """policy(task, tasks that can run, site) -> task that runs next"""
    def __init__(self, policy, watch=(), skip=()):
        self.policy, self.watch, self.skip = policy, tuple(watch), tuple(skip)
        self.tasks = []
        self.stuck = False
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.files = {}
        self.trace = []
        self.limit = 10 ** 6

    def run(self, fns):
        global current
        self.tasks = [Task(n, fn) for n, fn in enumerate(fns)]
        current = self
        # finalizers of cycles must not run inside the scheduler
        gc.disable()
        try:
            for t in self.tasks:
                _thread.start_new_thread(self.body, (t,))
            self.pick(None, None).baton.release()
            self.main.acquire()
        finally:
            current = None
            ids.clear()
            gc.enable()
        if self.stuck:
            raise Deadlock(', '.join('request %d: %s' % (t.n, t.where) for t in self.tasks if not t.done))
        for t in self.tasks:
            if t.error:
                raise t.error
        return self.tasks

    def body(self, t):
        t.baton.acquire()
        ids[_thread.get_ident()] = t
        sys.settrace(self.tracer)
        try:
            t.fn()
        except BaseException as e:             # noqa: BLE001
            t.error = e
        finally:
            sys.settrace(None)
            t.done = True
            ids.pop(_thread.get_ident(), None)
            self.leave(t)

    def watched(self, name):
        r = self.files.get(name)
        if r is None:
            r = self.files[name] = name.startswith(self.watch) and not any(s in name for s in self.skip)
        return r

    def tracer(self, frame, event, arg):
        if not self.watched(frame.f_code.co_filename):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.switch((frame.f_code.co_filename, frame.f_lineno))
        return self.line

    def pick(self, t, site):
        ready = [x for x in self.tasks if not x.done and (x.until is None or x.until())]
        if not ready:
            ready = [x for x in self.tasks if not x.done and x.timed]
        if not ready:
            return None
        if t in ready and t.masked:
            return t
        return self.policy(t, ready, site)

    def switch(self, site, until=None, timed=False):
        t = ids.get(_thread.get_ident())
        if t is None or (t.masked and until is None):
            return
        t.until, t.timed, t.where = until, timed, site
        t.steps += 1
        t.sites.add(site)
        if t.steps > self.limit:
            raise Deadlock('request %d does not end' % t.n)
        nxt = self.pick(t, site)
        if nxt is None:
            self.stuck = True
            self.main.release()
            t.baton.acquire()               # for ever
        if nxt is not t:
            self.trace.append((t.n, nxt.n, site))
            nxt.baton.release()
            t.baton.acquire()
        t.until = None

    def leave(self, t):
        if all(x.done for x in self.tasks):
            self.main.release()
            return
        nxt = self.pick(t, 'end')
        if nxt is None:
            self.stuck = True
            self.main.release()
        else:
            nxt.baton.release()


def task():
    return ids.get(_thread.get_ident())


def point(site):
    if current and task():
        current.switch(site)


def wait(site, until, timed=False):
    """False: it would never end (nobody else runs)"""
    if until():
        return True
    if not (current and task()):
        return False
    current.switch(site, until, timed)
    return until()


class Lock:
    def __init__(self):
        self.owner = None
        self.count = 0
    reentrant = False

    def me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        point(('lock', 'acquire'))
        while self.owner is not None and not (self.reentrant and self.owner == self.me()):
            if not blocking:
                return False
            if not wait(('lock', 'wait'), lambda: self.owner is None, timeout >= 0):
                if timeout >= 0:
                    return False
                raise Deadlock('lock taken twice')
        self.owner = self.me()
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != self.me()):
            raise RuntimeError('release of a lock that is not held')
        self.count -= 1
        if not self.count:
            self.owner = None
            point(('lock', 'release'))

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _is_owned(self):
        return self.owner == self.me()


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        if self.lock.owner != self.lock.me():
            raise RuntimeError('cannot wait on un-acquired lock')
        flag = [False]
        self.waiters.append(flag)
        n, self.lock.count, self.lock.owner = self.lock.count, 0, None
        try:
            ok = wait(('condition', 'wait'), lambda: flag[0], timeout is not None)
            if not ok and timeout is None:
                raise Deadlock('wait without anybody to notify')
        finally:
            if flag in self.waiters:
                self.waiters.remove(flag)
            self.lock.acquire()
            self.lock.count = n
        return ok

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout) and timeout is not None:
                return pred()
        return True

    def notify(self, n=1):
        if self.lock.owner != self.lock.me():
            raise RuntimeError('cannot notify on un-acquired lock')
        for f in self.waiters[:n]:
            f[0] = True
            self.waiters.remove(f)

    def notify_all(self):
        self.notify(len(self.waiters))
    notifyAll = notify_all


@contextlib.contextmanager
def primitives():
    """the locks made inside are the scheduler's"""
    old = threading.Lock, threading.RLock, threading.Condition
    threading.Lock, threading.RLock, threading.Condition = Lock, RLock, Condition
    try:
        yield
    finally:
        threading.Lock, threading.RLock, threading.Condition = old


# ---- policies
def randomly(rnd, p):
    def policy(t, ready, site):
        if t in ready and rnd.random() >= p:
            return t
        return rnd.choice(ready)
    return policy


def preempt(rnd, first, cuts):
    """`first` runs until it has reached its n-th new place, then the others; cuts: {task: n}, each once"""
    left = dict(cuts)

    def policy(t, ready, site):
        if t is None:
            return next((x for x in ready if x.n == first), ready[0])
        if t.n in left and len(t.sites) >= left[t.n]:
            del left[t.n]
            others = [x for x in ready if x is not t]
            if others:
                return rnd.choice(others)
        if t in ready:
            return t
        return rnd.choice(ready)
    return policy
