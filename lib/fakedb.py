"""A DB-API 2 driver that records every call and fails on demand; used under dbutils."""
import sys
import types

import sched


class Driver:
    """One database server and its driver module"""

    def __init__(self, threadsafety=2, ping=True, begin=True, cancel=True, as_module=True):
        self.log = []
        self.fault = None            # callable(kind, con, arg) -> None | 'lost' | 'lost-after' | exception
        self.cons = []
        self.committed = []
        self.values = 0
        self.errors = 0
        self.failures = None         # the classes that count as lost connections
        m = types.ModuleType('fakedb_%d' % id(self))
        self.module = m
        self.found = False           # the connections tell their module

        class Error(Exception):
            pass
        m.Error = Error
        for n in ('InterfaceError', 'OperationalError', 'InternalError', 'ProgrammingError', 'DataError', 'IntegrityError'):
            setattr(m, n, type(n, (Error,), {}))
        m.threadsafety = threadsafety
        m.apilevel = '2.0'
        m.connect = lambda *a, **kw: Connection(self, a, kw)
        self.has = {'ping': ping, 'begin': begin, 'cancel': cancel}
        self.as_module = as_module

    def creator(self):
        if self.as_module:
            return self.module
        f = lambda *a, **kw: self.module.connect(*a, **kw)      # noqa: E731
        f.dbapi = self.module
        return f

    def make(self, name, text=''):
        e = getattr(self.module, name)(text)
        return e

    def err(self, e):
        """every error raised by the driver has a number"""
        self.errors += 1
        e.number = self.errors
        e.failure = isinstance(e, self.failures or (self.module.OperationalError, self.module.InterfaceError,
                                                    self.module.InternalError))
        return e

    def note(self, d, c, o='ok', **kw):
        e = dict(d=d, c=c, o=o, s=0, v=0, e=0, lost=False, sz=0)
        e.update(kw)
        self.log.append(e)
        return e


class Connection:
    def __init__(self, drv, args, kw):
        self.drv = drv
        self.id = 0
        sched.point(('driver', 'connect'))
        f = drv.fault and drv.fault('open', None, None)
        if f:
            e = drv.err(f if isinstance(f, Exception) else drv.make('OperationalError', "can't connect"))
            drv.note('open', 0, 'fail' if e.failure else 'err', e=e.number)
            raise e
        self.args = (args, kw)
        drv.cons.append(self)
        self.id = len(drv.cons)
        self.open = True
        self.lost = False
        self.work = []               # not yet committed
        self.seen = False            # reads have a snapshot
        self.begun = False
        self.uses = 0
        drv.note('open', self.id)
        if drv.found:
            self.__module__ = drv.module.__name__ + '.connections'
        if drv.has['ping']:
            self.ping = self._ping
        if drv.has['begin']:
            self.begin = self._begin
        if drv.has['cancel']:
            self.cancel = self._cancel

    def _gone(self):
        self.lost = True
        self.work, self.seen, self.begun = [], False, False

    def _call(self, kind, arg=None, effect=None, **kw):
        """performs a call; effect() runs on the server"""
        drv = self.drv
        sched.point(('driver', kind))
        if not self.open or self.lost:
            e = drv.err(drv.make('InterfaceError' if not self.open else 'OperationalError', 'connection closed' if not self.open else 'gone away'))
            drv.note(kind, self.id, 'fail' if e.failure else 'err', e=e.number, lost=True, **kw)
            raise e
        f = drv.fault and drv.fault(kind, self, arg)
        if f == 'lost-after' and effect:
            effect()
        if f in ('lost', 'lost-after'):
            self._gone()
            e = drv.err(drv.make('OperationalError', 'lost connection'))
            drv.note(kind, self.id, 'fail', e=e.number, lost=True, **kw)
            raise e
        if isinstance(f, Exception):
            drv.err(f)
            drv.note(kind, self.id, 'fail' if f.failure else 'err', e=f.number, **kw)
            raise f
        v = effect() if effect else 0
        drv.note(kind, self.id, v=v or 0, **kw)
        return v

    def _ping(self, *a):
        if a == ('who',):
            return self.id
        sched.point(('driver', 'ping'))
        f = self.drv.fault and self.drv.fault('ping', self, None)
        if f:
            self._gone()
        if not self.open or self.lost:
            e = self.drv.err(self.drv.make('InterfaceError', 'not available'))
            self.drv.note('ping', self.id, 'fail', e=e.number, lost=True)
            raise e
        self.drv.note('ping', self.id)

    def _begin(self, *a):
        def effect():
            self.begun = True
        self._call('begin', effect=effect)

    def _cancel(self):
        def effect():
            self.work, self.seen, self.begun = [], False, False
        self._call('cancel', effect=effect)

    def commit(self):
        def effect():
            self.drv.committed.append((self.id, tuple(self.work)))
            self.work, self.seen, self.begun = [], False, False
        self._call('commit', effect=effect)

    def rollback(self):
        def effect():
            self.work, self.seen, self.begun = [], False, False
        self._call('rollback', effect=effect)

    def cursor(self, *a, **kw):
        self._call('cursor')
        return Cursor(self)

    def close(self):
        self.drv.note('close', self.id)
        was = self.open
        self.open = False
        self.work, self.seen, self.begun = [], False, False
        if not was or self.lost:
            raise self.drv.err(self.drv.make('InterfaceError', 'already closed'))


class Cursor:
    def __init__(self, con):
        self.con = con
        self.result = 0
        self.sizes = 0
        self.open = True

    def _run(self, sql, kind):
        con, drv = self.con, self.con.drv
        sizes, self.sizes = self.sizes, 0
        session = isinstance(sql, str) and sql.startswith('session ')
        s = int(sql.split()[1]) if isinstance(sql, str) and ' ' in sql else 0
        if not self.open:
            e = drv.err(drv.make('ProgrammingError', 'cursor closed'))
            drv.note('exec', con.id, 'err', s=s, e=e.number, sz=sizes)
            raise e

        def effect():
            if session:
                return 0
            con.work.append(s)
            con.seen = True
            con.uses += 1
            drv.values += 1
            return drv.values
        v = con._call('session' if session else 'exec', sql, effect, s=s, sz=sizes)
        self.result = v
        return v

    def execute(self, sql, *a):
        return self._run(sql, 'execute')

    def executemany(self, sql, *a):
        return self._run(sql, 'executemany')

    def callproc(self, sql, *a):
        return self._run(sql, 'callproc')

    def setinputsizes(self, sizes):
        self.sizes += sum(sizes)

    def setoutputsize(self, size, column=None):
        self.sizes += size * 1000

    def fetchone(self):
        return self.result

    def close(self):
        if not self.open:
            raise self.con.drv.make('ProgrammingError', 'cursor closed')
        self.open = False
