PROPERTY = 'D05'
NEEDS = 'a connection found dead by a ping when a cursor is opened or a statement is run'
BREAKS = 'the dead connection is replaced without being closed'
EDITS = [('dbutils/steady_db.py', '''                except Exception:
                    pass
                else:
                    self._close()
                    self._store(con)
                    alive = True
''', '''                except Exception:
                    pass
                else:
                    # it does not answer, there is nothing to close
                    self._store(con)
                    alive = True
''')]
# DEMO
import fakedb
from dbutils.steady_db import connect
d = fakedb.Driver()
con = connect(d.module, ping=7)
cu = con.cursor()
d.cons[0]._gone()
cu.execute('stmt 1')
con.close()
expect('open connections', [c.open for c in d.cons], [False, False])
