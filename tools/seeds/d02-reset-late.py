PROPERTY = 'D02'
NEEDS = 'a connection fetched by another thread at the moment it is returned'
BREAKS = 'the connection is handed over before the previous work on it is rolled back'
EDITS = [('dbutils/pooled_db.py', '''            if not self._maxcached or len(self._idle_cache) < self._maxcached:
                con._reset(force=self._reset)  # rollback possible transaction
                # the idle cache is not full, so put it there
                self._idle_cache.append(con)  # append it to the idle cache
            else:  # if the idle cache is already full,
                con.close()  # then close the connection
''', '''            cached = not self._maxcached or len(
                self._idle_cache) < self._maxcached
            if cached:
                # the idle cache is not full, so put it there
                self._idle_cache.append(con)  # append it to the idle cache
            else:  # if the idle cache is already full,
                con.close()  # then close the connection
'''), ('dbutils/pooled_db.py', '''            self._lock.notify_all()  # not every waiting request can be served
''', '''            self._lock.notify_all()  # not every waiting request can be served
        if cached:  # the roundtrip need not stop the other threads
            con._reset(force=self._reset)  # rollback possible transaction
''')]
# DEMO
import threading
import fakedb
from dbutils.pooled_db import PooledDB
d = fakedb.Driver()
pool = PooledDB(d.module, maxconnections=1, blocking=True)
con = pool.connection(False)
con.cursor().execute('stmt 1')
seen = []


def fault(kind, c, arg):
    if kind == 'rollback':
        t = threading.Thread(target=other)
        t.start()
        t.join(1)


def other():
    d.fault = None
    got.append(pool.connection(False))
    seen.append(list(d.cons[0].work))


got = []
d.fault = fault
con.close()
threading.Event().wait(.5)
expect('work of the previous holder', seen, [[]])
