PROPERTY = 'P10'
NEEDS = 'a DROP TABLE that the backend refuses, for example for a foreign key'
BREAKS = 'the table, which still exists, is not known any more'
EDITS = [('scheduler/backend/executors/remote_executor.py', '''        start_time = time.time()
        try:
            cursor.execute(enc_query)
''', '''        start_time = time.time()
        if query_type == QueryType.DROP:
            # nobody may use the table while it goes
            self.meta.delete_delta(self.str_db, self.table['table'])
        try:
            cursor.execute(enc_query)
'''), ('scheduler/backend/executors/remote_executor.py', '''        elif query_type == QueryType.DROP:
            self.meta.delete_delta(self.str_db, self.table['table'])
''', '')]
# DEMO
import mysql.connector
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(20))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 'x')")
    w.server.fault = lambda kind, conn, sql: (mysql.connector.errors.DatabaseError(
        msg='DROP command denied', errno=1142, sqlstate='42000') if kind == 'execute' and 'drop' in (sql or '').lower() else None)
    d = w.query('points', 'drop table t')
    w.server.fault = None
    r = w.query('points', 'select a, b from t')
expect('drop', d[0] != 'ok', True)
expect('rows', r[:2], ('ok', [(1, 'x')]))
