PROPERTY = 'D03'
NEEDS = 'a failing connect, and later requests up to the limit in a blocking pool'
BREAKS = 'the failed connect keeps its place, and a later request waits for ever'
EDITS = [('dbutils/pooled_db.py', '''                # connection limit not reached, get a dedicated connection
                try:  # first try to get it from the idle cache
                    con = self._idle_cache.pop(0)
                except IndexError:  # else get a fresh connection
                    con = self.steady_connection()
                else:
                    con._ping_check()  # check connection
                con = PooledDedicatedDBConnection(self, con)
                self._connections += 1
''', '''                # connection limit not reached, get a dedicated connection
                self._connections += 1
                try:  # first try to get it from the idle cache
                    con = self._idle_cache.pop(0)
                except IndexError:  # else get a fresh connection
                    con = self.steady_connection()
                else:
                    con._ping_check()  # check connection
                con = PooledDedicatedDBConnection(self, con)
''')]
# DEMO
import threading
import fakedb
from dbutils.pooled_db import PooledDB
d = fakedb.Driver()
pool = PooledDB(d.module, maxconnections=1, blocking=True)
d.fault = lambda kind, c, arg: d.make('OperationalError', 'down') if kind == 'open' else None
try:
    pool.connection(False)
except d.module.OperationalError:
    pass
d.fault = None
got = []
t = threading.Thread(target=lambda: got.append(pool.connection(False)), daemon=True)
t.start()
t.join(2)
expect('served', len(got), 1)
