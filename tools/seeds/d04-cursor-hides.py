PROPERTY = 'D04'
NEEDS = 'a connection lost between two statements of a transaction, noticed when the second cursor is opened'
BREAKS = 'the transaction silently continues on a fresh connection, its first half is gone'
EDITS = [('dbutils/steady_db.py', '''                    self._close()
                    self._store(con)
                    if transaction:
                        raise error  # re-raise the original error again
                    return cursor
''', '''                    self._close()
                    self._store(con)
                    self._transaction = transaction
                    return cursor
''')]
# DEMO
import fakedb
from dbutils.steady_db import connect
d = fakedb.Driver()
con = connect(d.module)
con.begin()
cu = con.cursor()
cu.execute('stmt 1')
cu.close()
d.cons[0]._gone()
try:
    cu = con.cursor()
    cu.execute('stmt 2')
    con.commit()
    got = 'hidden'
except d.module.OperationalError:
    got = 'error'
expect('a lost transaction', got, 'error')
