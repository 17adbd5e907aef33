PROPERTY = 'D05'
NEEDS = 'a statement that was repeated on a new cursor of the same connection'
BREAKS = 'repeated statements are not counted, the usage limit is exceeded'
EDITS = [('dbutils/steady_db.py', '''                            self.close()
                            self._cursor = cursor2
                            con._usage += 1
                            return result
''', '''                            self.close()
                            self._cursor = cursor2
                            return result
''')]
# DEMO
import fakedb
from dbutils.steady_db import connect
d = fakedb.Driver()
con = connect(d.module, 2, ping=0)
cu = con.cursor()
n = [0]


def fault(kind, c, arg):
    if kind == 'exec':
        n[0] += 1
        if n[0] % 2:
            return d.make('InternalError')


d.fault = fault
for i in range(4):
    cu.execute('stmt %d' % i)
expect('too many statements on a connection', [c.uses for c in d.cons if c.uses > 2], [])
