PROPERTY = 'P12'
NEEDS = 'more than 128 encrypted queries that wait for their rows'
BREAKS = 'the oldest is forgotten'
EDITS = [('scheduler/backend/execution_context.py', '''id_sql_map = {}
''', '''from collections import OrderedDict
id_sql_map = OrderedDict()
'''), ('scheduler/backend/execution_context.py', '''    id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
''', '''    while len(id_sql_map) >= 128:
        # clients that never come back must not fill the memory
        id_sql_map.popitem(last=False)
    id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
''')]
# DEMO
from world import World, silence
with World() as w, silence():
    w.server.add_db('points')
    w.boot()
    w.query('points', 'create table t (a int, b varchar(60))', encrypted_columns={'b': {'fuzzy': False, 'key': 'k1'}})
    w.query('points', "insert into t (a, b) values (1, 'qz')")
    c = w.ctl
    first = c.ControllerEncryptSql2({'db': 'points', 'sql': 'select b from t'}).do_convert()
    for _ in range(200):
        c.ControllerEncryptSql2({'db': 'points', 'sql': 'select a from t'}).do_convert()
    conn = w.server.connect(host='127.0.0.1', port=3306, user='root', password='root', db='points')
    cu = conn.cursor()
    cu.execute(first['encrypt_sql'])
    rows = [list(x) for x in cu.fetchall()]
    r = c.ControllerDecrypt({'data': {'rows': rows}, 'query_id': first['id']}).do_convert()
expect('rows', r.get('data', r).get('rows'), [['qz']])
