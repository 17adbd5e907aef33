PROPERTY = 'P09'
NEEDS = 'the proxy dies or the catalog fails between two columns of a CREATE TABLE'
BREAKS = 'the catalog keeps half of the table'
EDITS = [('scheduler/schema/metadata.py', '''                rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
        self.write_db_meta(lambda cu: cu.executemany(insert_sql, rows))
''', '''                row = (db_name, 'mysql', table_name, table_anonymous, col_str, '')
                self.write_db_meta(lambda cu: cu.execute(insert_sql, row))
'''), ('scheduler/schema/metadata.py', '''        rows = []
''', '')]
# DEMO
from world import World, silence
from mysql.connector import errors as E
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    n = [0]

    def fault(kind, conn, sql):
        if kind == 'execute' and sql.startswith('insert into p_db_meta'):
            n[0] += 1
            if n[0] == 2:
                raise E.InternalError(msg='Deadlock found', errno=1213)
    w.server.fault = fault
    w.query('points', 'create table t (a int, b varchar(60), c int)', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.server.fault = None
    meta = w.server.dbs[('127.0.0.1', 3306, 'eulerdb_schema')].tables['p_db_meta'].rows
    names = [r[4] for r in meta if r[2] == 't']
expect('catalog rows of the table', len(names) in (0, 3), True)
