PROPERTY = 'D01'
NEEDS = 'two threads returning connections at the same moment while the idle cache has room for one'
BREAKS = 'more idle connections than maxcached are kept'
EDITS = [('dbutils/pooled_db.py', '''        with self._lock:
            if not self._maxcached or len(self._idle_cache) < self._maxcached:
                con._reset(force=self._reset)  # rollback possible transaction
''', '''        keep = not self._maxcached or len(self._idle_cache) < self._maxcached
        with self._lock:
            if keep:
                con._reset(force=self._reset)  # rollback possible transaction
''')]
# DEMO
import sys, threading
import fakedb
from dbutils.pooled_db import PooledDB
d = fakedb.Driver()
pool = PooledDB(d.module, maxcached=1, maxconnections=3)
cons = [pool.connection(False) for _ in range(3)]
inside, go = threading.Event(), threading.Event()


def fault(kind, con, arg):
    if kind == 'rollback' and not go.is_set():
        inside.set()
        go.wait(5)


d.fault = fault
ts = [threading.Thread(target=c.close) for c in cons]
ts[0].start()
inside.wait(5)              # the first one is rolled back while the pool is locked
for t in ts[1:]:
    t.start()
threading.Event().wait(.5)  # the others arrive
go.set()
for t in ts:
    t.join()
expect('idle connections', sum(c.open for c in d.cons), 1)
