From 6c705851d958785fdb3f50b533bc2e3748967fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 01/90] fix: a table created on an empty catalog is unknown to
 SUM/AVG

---
 scheduler/schema/metadata.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0ad152d..c653345 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -105,16 +105,8 @@ class Delta(object):
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-        if self.meta:
-            if db_name not in self.meta.keys():
-                self.meta.update({db_name: table_meta})
-            else:
-                self.meta[db_name].update(table_meta)
-
-        else:
-            self.meta = {
-                db_name: table_meta
-            }
+        # in place: the class attribute and the instance must stay the same catalog
+        self.meta.setdefault(db_name, {}).update(table_meta)
         # update database meta
         self.update_db_meta(db_name, table_meta)
         return self.meta
-- 
2.43.0


From 42c245b302accacbc0bf98c9f9a6df2aee943d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 02/90] fix: backend failures were swallowed and the catalog
 changed ahead of the backend

---
 .../backend/executors/remote_executor.py      | 18 ++++++-----
 scheduler/handers/table.py                    |  4 +--
 scheduler/schema/metadata.py                  | 30 ++++++++++---------
 3 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 8231a78..f230b12 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -4,6 +4,7 @@ import pandas as pd
 import numpy as np
 
 import mysql.connector
+from mysql.connector import errorcode
 
 from scheduler.handers.rewrite_hander import Rewriter
 from scheduler.backend.executors.abstract_executor import AbstractQueryExecutor
@@ -102,16 +103,19 @@ class RemoteExecutor(AbstractQueryExecutor):
         start_time = time.time()
         try:
             cursor.execute(enc_query)
+            if query_type == QueryType.SELECT:
+                self.result = cursor.fetchall()
+            else:
+                self.conn.commit()
         except Exception as e:
             logger.info(e)
-            if query_type == QueryType.CREATE:
-                self.meta.delete_delta(self.str_db, self.table['table'])
-        if query_type == QueryType.DROP:
+            # a table the backend does not have any more is dropped
+            if not (query_type == QueryType.DROP and getattr(e, 'errno', None) == errorcode.ER_BAD_TABLE_ERROR):
+                raise e
+        if query_type == QueryType.CREATE:
+            self.meta.update_delta(self.str_db, self.table['meta'])
+        elif query_type == QueryType.DROP:
             self.meta.delete_delta(self.str_db, self.table['table'])
-        elif query_type == QueryType.SELECT:
-            self.result = cursor.fetchall()
-        else:
-            self.conn.commit()
         logger.info("Execute:{}".format(time.time() - start_time))
         self.conn.close()
 
diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 0424c3b..6a68c01 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -144,8 +144,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
             'comment': json.get('comment', {}).get('literal')
         }
     }
-    Delta().update_delta(db, table_meta)
-    return query, {'table': table_name}
+    # the executor records table_meta in the catalog once the backend has created the table
+    return query, {'table': table_name, 'meta': table_meta}
 
 
 def get_enc_columns(columns, columns_info, cipher='symmetric'):
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index c653345..441d1fb 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -105,26 +105,32 @@ class Delta(object):
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
+        # update database meta first, memory must never be ahead of it
+        self.update_db_meta(db_name, table_meta)
         # in place: the class attribute and the instance must stay the same catalog
         self.meta.setdefault(db_name, {}).update(table_meta)
-        # update database meta
-        self.update_db_meta(db_name, table_meta)
         return self.meta
 
     def delete_delta(self, db, table):
+        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
+        self.write_db_meta(lambda cu: cu.execute(sql))
         self.meta[db].pop(table, None)
+
+    def write_db_meta(self, write):
         self.db_conn = test_connection(self.db_conn)
         cu = self.db_conn.cursor()
-        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
-        cu.execute(sql)
-        if config['meta']['type'] == 'mysql':
+        try:
+            write(cu)
             self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        except Exception:
+            try:
+                # nothing of a failed change may be committed by a later one
+                self.db_conn.rollback()
+            except Exception:
+                pass
+            raise
 
     def update_db_meta(self, db_name, table_meta):
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
         rows = []
         for t_name, t_value in table_meta.items():
             table_name = t_name
@@ -132,11 +138,7 @@ class Delta(object):
             for key, value in t_value['columns'].items():
                 col_str = json.dumps({key: value})
                 rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
-        cu.executemany(insert_sql, rows)
-        if config['meta']['type'] == 'mysql':
-            self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        self.write_db_meta(lambda cu: cu.executemany(insert_sql, rows))
 
     @classmethod
     def load_delta(cls):
-- 
2.43.0


From c9d6c3dc03b9203d651e92ec04cb2bb7101e0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 03/90] fix: creating an existing table replaced its catalog
 entry

---
 scheduler/backend/executors/remote_executor.py | 14 ++++++++++++++
 scheduler/handers/table.py                     |  6 ++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index f230b12..c760da2 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -1,4 +1,5 @@
 import logging
+import threading
 import time
 import pandas as pd
 import numpy as np
@@ -25,6 +26,8 @@ SQL_TYPES = [
 
 connection_pool = {}
 
+ddl_lock = threading.Lock()
+
 logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
 handler = logging.FileHandler('euler_db.log')
@@ -82,11 +85,22 @@ class RemoteExecutor(AbstractQueryExecutor):
         self.encrypted_cols = encrypted_cols
         if query_type not in SQL_TYPES:
             raise NotImplementedError("Not support {} sql type".format(query_type))
+        if query_type in (QueryType.CREATE, QueryType.DROP):
+            # check, backend change and catalog change of one table must not interleave with another's
+            with ddl_lock:
+                self.execute(query, query_type, use_cursor)
+        else:
+            self.execute(query, query_type, use_cursor)
+
+    def execute(self, query, query_type, use_cursor=True):
         try:
             logger.info("SQL:{}".format(query))
             start_time = time.time()
             enc_query, self.table = self.dispatch(query)
             logger.info("Encrypt SQL:{}".format(enc_query))
+            if enc_query is None:
+                self.conn.close()
+                return
             logger.info("Encrypt:{}".format(time.time() - start_time))
             if query_type == QueryType.SELECT:
                 # if 'limit' in self.conn_info.keys():
diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 6a68c01..af59d32 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -15,8 +15,10 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         raise Exception("Bad create table query: {}".format(query))
     create_table = json['create table']
     table_name = create_table['name']
-    # if table_name in db_meta.keys():
-    #     raise Exception("Table {} already exists".format(table_name))
+    if table_name in db_meta.keys():
+        if create_table.get('replace') is False:  # IF NOT EXISTS
+            return None, {'table': table_name}
+        raise Exception("Table {} already exists".format(table_name))
     columns = create_table['columns']
     enc_columns = []
     columns_kv = {}
-- 
2.43.0


From 96b30e66789a59cb34c5d9694f716f84180f94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 04/90] fix: results were decrypted with the catalog of a later
 moment

---
 scheduler/backend/executors/remote_executor.py | 8 +++++---
 scheduler/handers/clause/sql_clause.py         | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index c760da2..846f552 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -144,7 +144,7 @@ class RemoteExecutor(AbstractQueryExecutor):
 
     def batch_insert(self, batch_info):
         columns = batch_info['columns']
-        delta, table = self.get_db_meta()
+        delta = Delta().meta[self.str_db]
         table = batch_info['table']
         table_info = delta[table]
         new_table = table_info['anonymous']
@@ -225,7 +225,8 @@ class RemoteExecutor(AbstractQueryExecutor):
         return enc_query
 
     def get_db_meta(self):
-        return Delta().meta[self.str_db], self.table
+        # the catalog the query was rewritten with
+        return self.rewriter.db_meta, self.table
 
     @property
     def str_db(self):
@@ -256,7 +257,8 @@ class ConvertExecutor(AbstractQueryExecutor):
         return self.rewriter.select.select_types
 
     def get_db_meta(self):
-        return Delta().meta[self.str_db], self.table
+        # the catalog the query was rewritten with
+        return self.rewriter.db_meta, self.table
 
 
 if __name__ == '__main__':
diff --git a/scheduler/handers/clause/sql_clause.py b/scheduler/handers/clause/sql_clause.py
index 3b06b1d..bdc77be 100644
--- a/scheduler/handers/clause/sql_clause.py
+++ b/scheduler/handers/clause/sql_clause.py
@@ -10,7 +10,8 @@ class Clause(object):
         self.encrypted_cols = encrypted_cols
         self.origin_query = None
         if Delta().meta:
-            self.db_meta = Delta().meta.get(db, {})
+            # a snapshot: one query sees one catalog, whatever is created or dropped meanwhile
+            self.db_meta = dict(Delta().meta.get(db, {}))
         for key, value in clause.items():
             if isinstance(value, dict):
                 for k, v in value.items():
-- 
2.43.0


From bd3912008573fa3dc294889c7323f4aebd67ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 05/90] fix: FLOAT and DOUBLE values changed on the way through
 storage

---
 scheduler/crypto/encrypt.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 2a7094e..7b6e1a3 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -49,7 +49,7 @@ def stretch(val):
 def inverse_stretch(val):
     # piecewise linear function [10**15, 10**19, 10**22, 10**24], [10**15, 10**42, 10**56, 10**65]
     if val < 0:
-        return -stretch(-val)
+        return -inverse_stretch(-val)
     if 10**15 >= val >= 0:
         return val
     if 10**19 >= val > 10**15:
@@ -61,11 +61,13 @@ def inverse_stretch(val):
 
 
 def encode(val, val_type):
+    if val_type in ['float', 'double'] and isinstance(val, str):
+        val = float(val)
     if val_type == 'float':
-        return int(val * 10 ** 12)
+        return round(val * 10 ** 12)
     if val_type == 'double':
         val = stretch(val)
-        return int(val * 10 ** 12)
+        return round(val * 10 ** 12)
     return val
 
 
@@ -80,8 +82,7 @@ def decode(val, val_type):
     if val_type == 'float':
         return val / 10 ** 12
     if val_type == 'double':
-        val = inverse_stretch(val)
-        return val / 10 ** 12
+        return inverse_stretch(val / 10 ** 12)
     return val
 
 
-- 
2.43.0


From 9211e825b3c1162c80728a6ddd07b70f4a6dbab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 06/90] fix: INSERT of one column, of NULL, or of several rows
 lost its values when formatted

---
 sql_parsing/formatting.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 17e2443..1a02044 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -590,7 +590,7 @@ class Formatter:
         acc.append(json["insert"])
 
         if "columns" in json:
-            acc.append(self.sql_list(json["columns"]))
+            acc.append(self.sql_list(listwrap(json["columns"])))
         if "values" in json:
             values = json["values"]
             if all(isinstance(row, dict) for row in values):
@@ -607,24 +607,22 @@ class Formatter:
                 if "if exists" in json:
                     acc.append("IF EXISTS")
                 acc.append("VALUES")
-                for row in values:
-                    acc.append("(" + ", ".join(self._literal(row)) + ")")
+                acc.append(",\n".join(
+                    "(" + ", ".join(self._literal(v) for v in row) + ")"
+                    for row in values
+                ))
         elif "query" in json:
-            query_values = json["query"]
-            if "select" in query_values:
-                values = query_values["select"]
-                if all(isinstance(row, dict) for row in values):
-                    if "if exists" in json:
-                        acc.append("IF EXISTS")
-                    acc.append("VALUES")
-                    acc.append(
-                        "(" + ", ".join(self._literal(v['value']) for v in values) + ")"
-                    )
-
-        else:
             if "if exists" in json:
                 acc.append("IF EXISTS")
-            acc.append(self.dispatch(json["query"]))
+            rows = listwrap(json["query"].get("union_all", json["query"]))
+            if all(row.keys() == {"select"} for row in rows):
+                acc.append("VALUES")
+                acc.append(",\n".join(
+                    "(" + ", ".join(self.dispatch(v["value"]) for v in listwrap(row["select"])) + ")"
+                    for row in rows
+                ))
+            else:
+                acc.append(self.dispatch(json["query"]))
         return " ".join(acc)
 
     def drop(self, json, prec=precedence["from"]):
-- 
2.43.0


From 04ff27f50c338cf4ab181765886f1bcee5c0b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 07/90] fix: several inserted rows reached the backend in
 plaintext, NULL and single columns were refused

---
 scheduler/handers/clause/__init__.py    |  3 +-
 scheduler/handers/clause/sql_columns.py |  2 +-
 scheduler/handers/clause/sql_values.py  | 47 +++++++++++++++++++++++--
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index d8df19e..34b2e92 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -20,7 +20,8 @@ clause = {
     'orderby': OrderBy,
     'columns': SQLColumns,
     'drop': SQLDrop,
-    'query': {'select': SQLValues},
+    'query': SQLValues,
+    'values': SQLValues,
     'alter': AnonymousTable,
     'reference_table': AnonymousTable,
     'add primary key': SQLSelect,
diff --git a/scheduler/handers/clause/sql_columns.py b/scheduler/handers/clause/sql_columns.py
index 5699940..8c6e9ca 100644
--- a/scheduler/handers/clause/sql_columns.py
+++ b/scheduler/handers/clause/sql_columns.py
@@ -8,7 +8,7 @@ class SQLColumns(Rewriter):
     def rewrite(self, columns, table, json=None):
         enc_table_meta = self.db_meta[table]
         new_columns = []
-        for col in columns:
+        for col in columns if isinstance(columns, list) else [columns]:
             if enc_table_meta['columns'][col]['plaintext']:
                 new_columns.append(col)
             else:
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 5f37443..fffaf56 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -7,9 +7,23 @@ class SQLValues(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, values, table, json=None):
+        if isinstance(values, list):
+            # several rows of literals: [{column: literal, ..}, ..]
+            return [self.rewrite_literals(row, table) for row in values]
+        rows = values.get('union_all', [values])
+        if any(row.keys() != {'select'} for row in rows):
+            raise Exception("Only constants can be inserted")
+        columns = json['columns'] if isinstance(json['columns'], list) else [json['columns']]
+        rows = [{'select': self.rewrite_row(columns, row['select'], table)} for row in rows]
+        return {'union_all': rows} if 'union_all' in values else rows[0]
+
+    def rewrite_row(self, columns, values, table):
+        values = values if isinstance(values, list) else [values]
+        if len(columns) != len(values):
+            raise Exception("Column count doesn't match value count")
         new_values = []
         enc_table_meta = self.db_meta[table]
-        for col, value in zip(json['columns'], values):
+        for col, value in zip(columns, values):
             if enc_table_meta['columns'][col]['plaintext']:
                 new_values.append(value)
             else:
@@ -17,11 +31,36 @@ class SQLValues(Rewriter):
                     new_values.append(self.encrypt_value(table, col, value['value'], enc))
         return new_values
 
+    def rewrite_literals(self, row, table):
+        if not isinstance(row, dict):
+            raise Exception("INSERT needs a column list")
+        new_row = {}
+        for col, value in row.items():
+            col_info = self.db_meta[table]['columns'][col]
+            if col_info['plaintext']:
+                new_row[col] = value
+                continue
+            value = {'literal': value} if isinstance(value, str) else value
+            for enc, enc_col in col_info['enc-cols'].items():
+                enc_value = self.encrypt_value(table, col, value, enc)['value']
+                new_row[enc_col] = enc_value['literal'] if isinstance(enc_value, dict) else enc_value
+        return new_row
+
     def encrypt_value(self, table, col, value, enc):
         key = self.db_meta[table]['columns'][col]['key']
+        value_type = self.db_meta[table]['columns'][col]['type']
         if isinstance(value, dict):
+            if 'null' in value:
+                return {'value': value}
             value = value['literal']
-        value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
+        elif isinstance(value, str):
+            # a bare string is the name of a column
+            raise Exception("{} is not a constant".format(value))
+        if isinstance(value, bool) or value_type == 'int':
+            if isinstance(value, float) and not value.is_integer():
+                raise Exception("{} is not an integer".format(value))
+            value = int(value)
+        value = encrypt.encode(value, value_type)
         if enc == "order-preserving":
             return {'value': encrypt.OPECipher(key).encrypt(int(value))}
         if enc == "symmetric":
@@ -31,3 +70,7 @@ class SQLValues(Rewriter):
         if enc == "arithmetic":
             homomorphic_key = self.db_meta[table]['columns'][col]['homomorphic_key']
             return {'value': {'literal': encrypt.HomomorphicCipher(homomorphic_key).encrypt(int(value))}}
+        if enc == "sm4":
+            return {'value': {'literal': encrypt.SM4CipherBytes(
+                self.db_meta[table]['columns'][col]['sm4_key']).encrypt(str(value))}}
+        raise Exception("{} has no {} ciphertext".format(col, enc))
-- 
2.43.0


From 8ca7309443f5d93cc1d896f7bc79193ecca2d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 08/90] fix: UPDATE left ciphertexts of the old value in some
 of a column's companions

---
 scheduler/handers/clause/sql_set.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index f821e05..298199d 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,11 +1,11 @@
-from scheduler.handers.clause.sql_where import SQLWhere
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.rewriter import Rewriter
 
 
 class SQLSet(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
-        self.where = SQLWhere(db_meta)
+        self.values = SQLValues(db_meta)
 
     def rewrite(self, set_value, table, json=None):
         result = {}
@@ -15,5 +15,6 @@ class SQLSet(Rewriter):
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
-                    result[v1] = self.where.rewrite(v, table, k1, key=enc_table_meta['columns'][k]['key'])
+                    # every ciphertext of the column changes, as if the value was inserted
+                    result[v1] = self.values.encrypt_value(table, k, v, k1)['value']
         return result
-- 
2.43.0


From 4ea49f4d6f8305783d65546e5d7c5def20b95814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 09/90] fix: comparisons of FLOAT, DOUBLE and quoted numbers
 reached the backend untranslated

---
 scheduler/handers/clause/sql_where.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index fc6cfb6..b8af3f8 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -3,11 +3,13 @@ import logging
 from scheduler.crypto import encrypt
 from scheduler.utils.keywords import Logical_Operation
 from scheduler.handers.clause.rewriter import Rewriter
+from scheduler.handers.clause.sql_values import SQLValues
 
 
 class SQLWhere(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
+        self.values = SQLValues(db_meta)
 
     def rewrite(self, where_value, table, cipher='symmetric', json=None, key=""):
         try:
@@ -22,7 +24,7 @@ class SQLWhere(Rewriter):
                     if col:
                         if not col[v[0]]['plaintext']:
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
-                                           self.rewrite(v[1], table, key=col[v[0]]['key'])]}
+                                           self.values.encrypt_value(table, v[0], v[1], "symmetric")['value']]}
                     else:
                         # We don't handle the situation when the join items are plaintext and cipher, but the sql still
                         # works. It just returns empty result...
@@ -39,9 +41,8 @@ class SQLWhere(Rewriter):
 
                 if k in ['gt', 'lt', 'gte', 'lte']:
                     if not col[v[0]]['plaintext']:
-                        if col[v[0]]['type'] == 'int':
-                            return {k: [col[v[0]]['enc-cols']["order-preserving"],
-                                        self.rewrite(v[1], table, cipher='order-preserving', key=col[v[0]]['key'])]}
+                        return {k: [col[v[0]]['enc-cols']["order-preserving"],
+                                    self.values.encrypt_value(table, v[0], v[1], "order-preserving")['value']]}
                 if k == 'like':
                     if not col[v[0]]['plaintext']:
                         return {
-- 
2.43.0


From 3095fbb8da08bcd508ceb91c44ef4a5e6be30cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 10/90] fix: untranslated clauses sent constants and names of
 encrypted columns to the backend

---
 scheduler/handers/rewrite_hander.py | 40 +++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index cab970b..f4caf8f 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -70,12 +70,52 @@ class Rewriter(Clause):
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
+        self.refuse_untranslated(json)
         # record json in Delta
         Delta.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json), table
 
+    def refuse_untranslated(self, json):
+        """
+        No clause may be sent that still names a table or an encrypted column of the user, and none can
+        compare an encrypted column with a constant then.
+        """
+        names, aliases = set(), set()
+
+        def collect(value):
+            if isinstance(value, str):
+                names.add(value.lower())
+            elif isinstance(value, list):
+                for v in value:
+                    collect(v)
+            elif isinstance(value, dict):
+                for k, v in value.items():
+                    if k == 'name':
+                        aliases.add(str(v).lower())
+                    elif k == 'set':
+                        collect(list(v.keys()))
+                        collect(list(v.values()))
+                    elif k == 'values':
+                        collect([list(row.keys()) for row in v if isinstance(row, dict)])
+                    elif k not in ('literal', 'sort'):
+                        collect(v)
+
+        collect(json)
+        mentioned = names | {name.split('.')[0] for name in names}
+        tables = [meta for meta in self.db_meta.values() if meta['anonymous'] in mentioned]
+        for name in names:
+            qualifier, column = name.split('.')[0], name.split('.')[-1]
+            candidates = [meta for meta in tables if meta['anonymous'] == qualifier] or tables
+            plaintext = [info['plaintext'] for meta in candidates
+                         for col, info in meta['columns'].items() if col.lower() == column]
+            if plaintext and not any(plaintext):
+                raise Exception("Not support this use of encrypted column {}".format(name))
+            if not plaintext or qualifier != column:
+                if qualifier not in aliases and qualifier in [table.lower() for table in self.db_meta]:
+                    raise Exception("Not support this use of table {}".format(name))
+
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
         if isinstance(json, str):
-- 
2.43.0


From 7d91b7634cebedb9af39c6adceee57bae155de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 11/90] fix: ORDER BY of an encrypted column ignored DESC and
 further columns

---
 scheduler/handers/clause/function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 2211909..7445a3d 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -6,8 +6,10 @@ class OrderBy(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, orderby_val, table, json=None):
+        if isinstance(orderby_val, list):
+            return [self.rewrite(val, table) for val in orderby_val]
         col = self.db_meta[table]['columns'][orderby_val['value']]
         if col['plaintext']:
             return orderby_val
         else:
-            return {'value': col['enc-cols']['order-preserving']}
+            return {**orderby_val, 'value': col['enc-cols']['order-preserving']}
-- 
2.43.0


From 83c6723ed604bd21009d857b620dc65802ded7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 12/90] fix: LIKE matched values in which the searched words
 only overlap

---
 scheduler/handers/clause/sql_where.py | 43 ++++++++++++---------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index b8af3f8..c87da47 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -55,36 +55,31 @@ class SQLWhere(Rewriter):
                     return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
         if isinstance(where_value, int):
             if cipher == 'fuzzy':
-                partial_list = str(where_value).split("%")
-                result = []
-                for partial in partial_list:
-                    if partial == "":
-                        result.append("")
-                        continue
-                    else:
-                        if len(str(partial)) < 3:
-                            raise Exception("The length of fuzzy search word {} is {} <3"
-                                            .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(str(partial)))
-                return "%".join(result)
+                return self.rewrite_pattern(str(where_value), key)
             if cipher == 'symmetric':
                 return encrypt.AESCipher(key).encrypt(str(where_value))
             if cipher == 'order-preserving':
                 return encrypt.OPECipher(key).encrypt(where_value)
         if isinstance(where_value, str):
             if cipher == 'fuzzy':
-                partial_list = where_value.split("%")
-                result = []
-                for partial in partial_list:
-                    if partial == "":
-                        result.append("")
-                        continue
-                    else:
-                        if len(str(partial)) < 3:
-                            raise Exception("The length of fuzzy search word {} is {} <3"
-                                            .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(partial))
-                return "%".join(result)
+                return self.rewrite_pattern(where_value, key)
             if cipher == 'symmetric':
                 return encrypt.AESCipher(key).encrypt(where_value)
         return where_value
+
+    @staticmethod
+    def rewrite_pattern(pattern, key):
+        result = ""
+        overlap = 0
+        for i, partial in enumerate(pattern.split("%")):
+            if i > 0:
+                result += "%"
+            if partial == "":
+                continue
+            if len(partial) < 3:
+                raise Exception("The length of fuzzy search word {} is {} <3".format(partial, len(partial)))
+            # the ciphertexts of overlapping words would be found next to each other: skip the ciphertexts
+            # of the characters which belong to the word before
+            result += "_" * overlap + encrypt.FuzzyCipher(key).encrypt(partial)
+            overlap = len(encrypt.AESCipher(key).encrypt(partial[:3])) * (2 if partial.isalnum() else 1)
+        return result
-- 
2.43.0


From a09b0f9d803f1990087d496675cbaaa62ff46485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 13/90] fix: COUNT of an encrypted column was decrypted,
 functions of one sent

---
 scheduler/handers/clause/sql_select.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index d237736..8c387f0 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -130,6 +130,13 @@ class SQLSelect(Rewriter):
                         assert p0 == p1, 'two columns to be added need to have the same key'
                         p = (p1[0] * p1[0]) ** 2
                         result['mod'] = [{'mul': [v0, v1]}, p]
+                elif k == 'count':
+                    result[k] = self.rewrite(v, table)
+                    # the number of values is not encrypted, whatever the values are
+                    self.select_state[-1] = 'plaintext'
+                    self.select_types[-1] = 'int'
                 else:
                     result[k] = self.rewrite(v, table)
+                    if k not in ('value', 'name', 'distinct') and 'plaintext' not in self.select_state[-1:]:
+                        raise Exception("Not support function {} of encrypted column".format(k))
             return result
-- 
2.43.0


From 581228ab30b52421541cee4102c1667e71b4b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 14/90] fix: SUM and AVG used another query's statement, NULL
 values and an empty selection broke them

---
 .../backend/executors/remote_executor.py      | 10 ++++---
 scheduler/handers/rewrite_hander.py           |  7 ++---
 scheduler/schema/metadata.py                  | 30 +++++++++----------
 3 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 846f552..26c66c4 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -208,19 +208,21 @@ class RemoteExecutor(AbstractQueryExecutor):
         if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
             return enc_query
         sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table)
+            Delta.get_paillier_procedure_info(
+                enc_query, self.rewriter.json, self.rewriter.db_meta[self.table]['columns'])
         if not need_paillier_procedure:
             return enc_query
+        # the session variables are gone with the connection, no statement may move to another one
+        self.conn.begin()
         for feature in set(sum_feature_name_list+avg_feature_name_list):
             Delta.set_sum_feature(self.conn.cursor(), feature, table_name)
-        if avg_feature_name_list:
-            Delta.set_total_feature_num(self.conn.cursor(), table_name)
+            Delta.set_feature_num(self.conn.cursor(), feature, table_name)
         for feature in sum_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
             enc_query = Delta.modify_sum_query(enc_query, feature[0], use_cursor)
         for feature in avg_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
-            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor, 'TotalFeature')
+            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor)
         enc_query = enc_query + ' limit 1'
         return enc_query
 
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index f4caf8f..38218d6 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -8,13 +8,12 @@ from scheduler.handers.clause.sql_clause import Clause
 from scheduler.handers.clause import clause
 from scheduler.handers.clause import table_key
 
-from scheduler.schema.metadata import Delta
-
 
 class Rewriter(Clause):
     def __init__(self, db, encrypted_cols=None):
         super().__init__(db, encrypted_cols)
         self.limit = float('-inf')
+        self.json = None
 
     def rewrite_query(self, query):
         """
@@ -71,8 +70,8 @@ class Rewriter(Clause):
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
         self.refuse_untranslated(json)
-        # record json in Delta
-        Delta.table_json = json
+        # record json for the aggregates
+        self.json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json), table
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 441d1fb..ec80a87 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -4,7 +4,6 @@ import yaml
 import sqlite3
 from copy import deepcopy
 
-from sql_parsing import parse_mysql as parse
 from sql_parsing import format
 
 import mysql.connector
@@ -94,7 +93,6 @@ FUNC_CIPHERS = {
 class Delta(object):
     __instance = None
     meta = None
-    table_json = None
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
@@ -167,15 +165,17 @@ class Delta(object):
         new_feature_name = feature_name.replace('.', '_')
         cursor.execute('SET @rownr=0;')
         cursor.execute('SET @sum=1;')
-        sum_sql = 'select sum from (select @rownr:=@rownr+1, @sum:=(@sum*{})%{} as sum from {} ' \
+        sum_sql = 'select sum from (select @rownr:=@rownr+1, ' \
+                  '@sum:=if({0} is null, @sum, (@sum*{0})%{1}) as sum from {2} ' \
                   'order by @rownr desc limit 1) tmp'.format(feature_name, n_square, table_name)
         set_sql = f'set @sum{new_feature_name} = ({sum_sql})'
         cursor.execute(set_sql)
 
     @staticmethod
-    def set_total_feature_num(cursor, table_name):
-        cursor.execute(f'SET @numTotalFeature = (select count(*) from {table_name});')
-
+    def set_feature_num(cursor, feature, table_name):
+        feature_name = feature[0]
+        new_feature_name = feature_name.replace('.', '_')
+        cursor.execute(f'SET @num{new_feature_name} = (select count({feature_name}) from {table_name});')
 
     @staticmethod
     def create_paillier_sum_procedure(cursor, feature, table_name, use_cursor):
@@ -199,19 +199,15 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name):
+    def get_paillier_procedure_info(cls, enc_query, json, columns_info):
         sum_feature_name_list = []
         avg_feature_name_list = []
-        if cls.table_json:
-            json = deepcopy(cls.table_json)
-        else:
-            json = parse(enc_query)
+        json = deepcopy(json)
         json.pop('limit', None)
         json_select = json['select']
         if not isinstance(json_select, list):
             json_select = [json_select['value']]
         homo_enc_dict = {}
-        columns_info = cls.meta[db][table_name]['columns']
         for col, col_info in columns_info.items():
             if col_info['enc-cols'].get('arithmetic'):
                 n_square = (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2
@@ -237,13 +233,15 @@ class Delta(object):
         new_feature_name = feature_name.replace('.', '_')
         if not use_cursor:
             return enc_query.replace('SUM({})'.format(feature_name), "CONCAT(GROUP_CONCAT({}), ',SUM')".format(new_feature_name))
-        return enc_query.replace('SUM({})'.format(feature_name), '@sum{}'.format(new_feature_name))
+        # one row even when no row is selected, and NULL when there is no value to add
+        return enc_query.replace('SUM({})'.format(feature_name),
+                                 'MAX(if(@num{0}=0, null, concat(@sum{0})))'.format(new_feature_name))
 
     @staticmethod
     def modify_avg_query(enc_query, feature_name, use_cursor, total_feature=None):
         new_feature_name = feature_name.replace('.', '_')
         if not use_cursor:
             return enc_query.replace('AVG({})'.format(feature_name), "CONCAT(GROUP_CONCAT({}), ',AVG')".format(new_feature_name))
-        num_feature_name = 'TotalFeature' if not total_feature else total_feature
-        return enc_query.replace('AVG({})'.format(feature_name), "concat(@sum{}, ',',@num{})".format(new_feature_name,
-                                                                                                     num_feature_name))
+        num_feature_name = new_feature_name if not total_feature else total_feature
+        return enc_query.replace('AVG({})'.format(feature_name), "MAX(concat(@sum{}, ',',nullif(@num{}, 0)))".format(
+            new_feature_name, num_feature_name))
-- 
2.43.0


From 5b8e7ee5d9ca13cd15673d10eb2da0cb6c2cb6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 15/90] fix: a wrong password or coinciding parameters were
 served by another user's connections

---
 scheduler/backend/executors/remote_executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 26c66c4..6c60b8a 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -50,13 +50,14 @@ class RemoteExecutor(AbstractQueryExecutor):
     def connect_db(conn_info):
         if not conn_info:
             return conn_info
-        db_key = conn_info['host'] + str(conn_info['port']) + conn_info['db'] + conn_info['user']
+        db_key = (conn_info['host'], str(conn_info['port']), conn_info['db'], conn_info['user'],
+                  conn_info['password'])
         if db_key not in connection_pool:
             connection = PooledDB(
                 mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                 passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
             connection_pool[db_key] = connection
-            logging.info("mysql connected from {}".format(db_key))
+            logging.info("mysql connected from {}".format(db_key[:4]))
         else:
             connection = connection_pool[db_key]
         return connection.connection()
-- 
2.43.0


From fc3772248becfc6b99ec2f146df2024515d4a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 16/90] fix: queries encrypted in the same millisecond shared
 one id

---
 scheduler/backend/execution_context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index 2a65655..ee8ef9f 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -4,7 +4,7 @@ from scheduler.backend.executors import DecryptQueryExecutor
 from scheduler.compile.parser import Parser
 from scheduler.handers.decrypt_handler import DecryptHandler
 
-import time
+import uuid
 
 id_sql_map = {}
 
@@ -52,8 +52,7 @@ def encrypt_sql2(db, sql):
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
     select_state = executor.rewriter.select.select_state
-    curr_id = lambda: int(round(time.time() * 1000))
-    curr_id = str(curr_id())
+    curr_id = uuid.uuid4().hex
     id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
     return enc_query, table, curr_id
 
-- 
2.43.0


From bb48c113762be3f881bab6d05a9d4dac701d7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:55 +0000
Subject: [PATCH 17/90] fix: deferred decryption failed on NULL and numbers

---
 scheduler/handers/decrypt_handler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index 2f3d2c5..0e62f46 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -46,7 +46,6 @@ class DecryptHandler(Handler):
             new_row = []
             # row1 = row.split(",")
             for col_name, state, col_val in zip(select_columns, select_state, row):
-                print("密文解密：" + col_val)
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
                         col_val = eval(col_val.__str__())
-- 
2.43.0


From 8cba5deeff2d4b25e37ebf55b0332563935a8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 18/90] fix: bulk import stored other values than INSERT and
 lacked companions

---
 .../backend/executors/remote_executor.py      | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 6c60b8a..70d82ee 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -8,11 +8,11 @@ import mysql.connector
 from mysql.connector import errorcode
 
 from scheduler.handers.rewrite_hander import Rewriter
+from scheduler.handers.clause import SQLValues
 from scheduler.backend.executors.abstract_executor import AbstractQueryExecutor
 from scheduler.compile.keywords_lists import QueryType
 from dbutils.pooled_db import PooledDB
 from scheduler.schema.metadata import Delta
-from scheduler.crypto import encrypt
 
 SQL_TYPES = [
     QueryType.CREATE,
@@ -159,40 +159,32 @@ class RemoteExecutor(AbstractQueryExecutor):
                 new_columns.append(col)
         chunk_size = 10 ** 4 * 2
         cursor = self.conn.cursor()
-        for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None):
+        values = SQLValues(delta)
+        # the text of the file is the value, no type may be guessed from the other rows
+        for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None,
+                                 dtype=str, keep_default_na=False):
             data = np.transpose(chunk.values)
+            # a chunk is stored as a whole or not at all
+            self.conn.begin()
             enc_data = []
             for idx, col in enumerate(columns):
                 if not columns_info[col]['plaintext']:
                     for enc, value in columns_info[col]['enc-cols'].items():
-                        if enc == "order-preserving":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.OPECipher(columns_info[col]['key']).encrypt, int, (data[idx])))
-                        if enc == "symmetric":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.AESCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
-                        if enc == "fuzzy":
-                            enc_data.append(
-                                self.batch_enc(
-                                    encrypt.FuzzyCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
+                        enc_data.append([
+                            self.batch_enc(values, table, col, value, enc) for value in data[idx]])
                 else:
                     enc_data.append(data[idx])
             query = "insert into {} (".format(new_table) + ",".join(new_columns) + ") values(" \
                     + ",".join(["%s"] * len(new_columns)) + ")"
-            enc_data = np.transpose(np.asarray(enc_data)).tolist()
-            for idx, i in enumerate(enc_data):
-                cursor.execute(query, tuple(i))
+            for i in zip(*enc_data):
+                cursor.execute(query, i)
             self.conn.commit()
         self.conn.close()
 
     @staticmethod
-    def batch_enc(func, input_type, data):
-        enc_data = []
-        for i in data:
-            enc_data.append(func(input_type(i)))
-        return enc_data
+    def batch_enc(values, table, col, value, enc):
+        enc_value = values.encrypt_value(table, col, {'literal': value}, enc)['value']
+        return enc_value['literal'] if isinstance(enc_value, dict) else enc_value
 
     def dispatch(self, query):
         self.rewriter = Rewriter(self.str_db, self.encrypted_cols)
-- 
2.43.0


From cd9a3a1d3dd97ea7df885145942c4d3d5802a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 19/90] fix: a connection whose reopening failed stayed in the
 lost transaction

---
 dbutils/steady_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbutils/steady_db.py b/dbutils/steady_db.py
index 93cdd65..7381909 100644
--- a/dbutils/steady_db.py
+++ b/dbutils/steady_db.py
@@ -683,7 +683,7 @@ class SteadyDBCursor:
                     except Exception:
                         pass
                 if transaction:
-                    self._transaction = False
+                    con._transaction = False
                 raise error  # re-raise the original error again
             else:
                 con._usage += 1
-- 
2.43.0


From 9dea54e1e7d219d244ad7051476ce546efc77700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 20/90] fix: shared connections exceeded maxconnections,
 waiters failed and closing the pool counted them twice

---
 dbutils/pooled_db.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 3265fac..09dc715 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -287,10 +287,12 @@ class PooledDB:
         """
         if shareable and self._maxshared:
             with self._lock:
-                while (not self._shared_cache and self._maxconnections
-                        and self._connections >= self._maxconnections):
+                while not self._can_open_shared() and (
+                        not self._shared_cache
+                        or min(self._shared_cache).con._transaction):
+                    # do not share connections which are in a transaction
                     self._wait_lock()
-                if len(self._shared_cache) < self._maxshared:
+                if self._can_open_shared():
                     # shared cache is not full, get a dedicated connection
                     try:  # first try to get it from the idle cache
                         con = self._idle_cache.pop(0)
@@ -303,17 +305,11 @@ class PooledDB:
                 else:  # shared cache full or no more connections allowed
                     self._shared_cache.sort()  # least shared connection first
                     con = self._shared_cache.pop(0)  # get it
-                    while con.con._transaction:
-                        # do not share connections which are in a transaction
-                        self._shared_cache.insert(0, con)
-                        self._wait_lock()
-                        self._shared_cache.sort()
-                        con = self._shared_cache.pop(0)
                     con.con._ping_check()  # check the underlying connection
                     con.share()  # increase share of this connection
                 # put the connection (back) into the shared cache
                 self._shared_cache.append(con)
-                self._lock.notify()
+                self._lock.notify_all()
             con = PooledSharedDBConnection(self, con)
         else:  # try to get a dedicated connection
             with self._lock:
@@ -331,6 +327,12 @@ class PooledDB:
                 self._connections += 1
         return con
 
+    def _can_open_shared(self):
+        """Check whether one more shared connection is allowed."""
+        return len(self._shared_cache) < self._maxshared and not (
+            self._maxconnections
+            and self._connections >= self._maxconnections)
+
     def dedicated_connection(self):
         """Alias for connection(shareable=False)."""
         return self.connection(False)
@@ -345,6 +347,8 @@ class PooledDB:
                     self._shared_cache.remove(con)  # from shared cache
                 except ValueError:
                     pass  # pool has already been closed
+            else:  # the connection may have left its transaction
+                self._lock.notify_all()
         if not shared:  # connection has become idle,
             self.cache(con.con)  # so add it to the idle cache
 
@@ -376,7 +380,6 @@ class PooledDB:
                         con.close()
                     except Exception:
                         pass
-                    self._connections -= 1
             self._lock.notify_all()
 
     def __del__(self):
-- 
2.43.0


From 58525bacdfb19282189d0524384612cf8298cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:59 +0000
Subject: [PATCH 21/90] fix: ALTER TABLE ADD PRIMARY/FOREIGN KEY always failed

---
 scheduler/handers/rewrite_hander.py |  5 ++++-
 sql_parsing/__init__.py             | 10 +++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 38218d6..a1c2bb8 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -67,7 +67,10 @@ class Rewriter(Clause):
             if isinstance(func, dict):
                 json = __inner__(json, key, func)
             else:
-                json[key] = func.rewrite(json[key], table, json=source_json)
+                # a reference names another table and its columns
+                json[key] = func.rewrite(
+                    json[key], source_json['reference_table'] if key.startswith('reference_') else table,
+                    json=source_json)
 
         self.refuse_untranslated(json)
         # record json for the aggregates
diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 919d09c..2695413 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -199,16 +199,20 @@ def parse_alter_key(sql):
 
 
 def format_alter_key(json):
+    def names(features):
+        # {'value': name} as parsed, name as rewritten
+        return ','.join([i['value'] if isinstance(i, dict) else i for i in features])
+
     if json.get('add primary key'):
         return f"alter table {json['alter']} " \
-               f"add primary key({','.join([i['value'] for i in json['add primary key']])});"
+               f"add primary key({names(json['add primary key'])});"
     if json.get('drop primary key'):
         return f"alter table {json['alter']} drop primary key;"
     if json.get('add foreign key'):
         return f"alter table {json['alter']} add constraint {json['add constraint']} " \
-               f"foreign key({','.join([i['value'] for i in json['add foreign key']])}) " \
+               f"foreign key({names(json['add foreign key'])}) " \
                f"REFERENCES {json['reference_table']}" \
-               f"({','.join([i['value'] for i in json['reference_feature']])});"
+               f"({names(json['reference_feature'])});"
     if json.get('drop foreign key'):
         return f"alter table {json['alter']} drop foreign key {json['drop foreign key']};"
     if json.get('add index'):
-- 
2.43.0


From 4cc5e1de89ac0dcbcec4310b82db7db1ce3f04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 22/90] fix: a failed statement kept its connection and locks
 until garbage collection

---
 scheduler/backend/execution_context.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index ee8ef9f..8b76eaf 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -24,7 +24,11 @@ def invoke(query_info, query_sql, encrypted_cols=None, columns_info=False):
     without doing anything
     """
     executor = RemoteExecutor(query_info)
-    executor.call(query_sql, Parser(query_sql), encrypted_cols)
+    try:
+        executor.call(query_sql, Parser(query_sql), encrypted_cols)
+    finally:
+        # a failed statement must not keep its connection and the locks of its transaction
+        executor.conn.close()
     select_columns = executor.get_select_columns()
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
@@ -37,7 +41,10 @@ def invoke(query_info, query_sql, encrypted_cols=None, columns_info=False):
 
 def encrypt_sql(query_info, query_sql):
     executor = RemoteExecutor(query_info)
-    return executor.encrypt_sql(query_sql)
+    try:
+        return executor.encrypt_sql(query_sql)
+    finally:
+        executor.conn.close()
 
 
 def encrypt_sql1(db, sql):
@@ -65,7 +72,10 @@ def decrypt_data(data, curr_id):
 
 def batch_process(query_info):
     executor = RemoteExecutor(query_info)
-    executor.batch_insert(query_info['batch_process'])
+    try:
+        executor.batch_insert(query_info['batch_process'])
+    finally:
+        executor.conn.close()
 
 
 def rewrite(query, db, encrypted_cols=None):
-- 
2.43.0


From ed84831c37d03ca0ef41cdf8fd9ab7883c6a8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 23/90] fix: ciphertexts of long texts did not fit their fuzzy
 and sm4 columns

---
 scheduler/handers/table.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index af59d32..0017fde 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -90,7 +90,9 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                 default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
             else:
                 default_value = ''
-            enc_columns.append(enc_col_name + ' ' + fuzzy_type_fixed + is_nullable + default_value)
+            # 24 characters for every pair of neighbouring characters
+            fuzzy_type = fit_type(fuzzy_type_fixed, col_type, lambda n: (n - 1) * 24)
+            enc_columns.append(enc_col_name + ' ' + fuzzy_type + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"fuzzy": enc_col_name})
         if encrypted_cols[col['name']].get('arithmetic'):
             enc_col_name = random.choice(string.ascii_letters) + \
@@ -119,7 +121,9 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                 default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
             else:
                 default_value = ''
-            enc_columns.append(enc_col_name + ' ' + sm4_type_fixed + is_nullable + default_value)
+            # hexadecimal digits of the padded blocks
+            sm4_type = fit_type(sm4_type_fixed, col_type, lambda n: (n // 16 + 1) * 32)
+            enc_columns.append(enc_col_name + ' ' + sm4_type + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"sm4": enc_col_name})
             columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
 
@@ -150,6 +154,14 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     return query, {'table': table_name, 'meta': table_meta}
 
 
+def fit_type(fixed_type, col_type, cipher_length):
+    # ciphertexts of long texts do not fit the usual 2000 characters
+    for t_k, t_v in col_type.items():
+        if t_k in ['char', 'varchar'] and t_v and cipher_length(t_v) > 2000:
+            return 'MEDIUMTEXT'
+    return fixed_type
+
+
 def get_enc_columns(columns, columns_info, cipher='symmetric'):
     if not isinstance(columns, list):
         columns = [columns]
-- 
2.43.0


From ff22ae19d18788879d9d2230269ad2492b7a18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 24/90] fix: columns of aliased tables in a join lost the dot

---
 scheduler/handers/clause/sql_select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index 8c387f0..1443169 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -64,7 +64,7 @@ class SQLSelect(Rewriter):
                 t_name, col_name = self.split_table_col(select_val, table)
                 true_table_name = get_origin_table(t_name, table)
                 col = self.db_meta[true_table_name]['columns'][col_name]
-                t_name = t_name if t_name != true_table_name else self.db_meta[true_table_name]['anonymous'] + "."
+                t_name = (t_name if t_name != true_table_name else self.db_meta[true_table_name]['anonymous']) + "."
                 self.select_types.append(col['type'])
                 if col['plaintext']:
                     self.select_state.append("plaintext")
-- 
2.43.0


From d409c7e67f6ee8b952f1830aa8a053612767029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 25/90] fix: columns of a derived table's query were reported
 as result columns

---
 scheduler/handers/rewrite_hander.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index a1c2bb8..ef912ed 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -119,6 +119,7 @@ class Rewriter(Clause):
                     raise Exception("Not support this use of table {}".format(name))
 
     def rewrite_clause(self, json):
+        selected = len(self.select.select_columns)
         source_json = copy.deepcopy(json)
         if isinstance(json, str):
             return self.db_meta[json]['anonymous']
@@ -154,6 +155,9 @@ class Rewriter(Clause):
                 json = __inner__(json, key, func)
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
+        # only the outermost query's columns are returned to the user
+        for selection in (self.select.select_columns, self.select.select_types, self.select.select_state):
+            del selection[selected:]
         return json
 
 
-- 
2.43.0


From f5566cd9fd18c91b7a24b3f497a6fb30d46aec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 26/90] fix: /jdbc_query took every query for a CREATE TABLE
 and failed

---
 handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.py b/handler.py
index 7710c6a..3485628 100644
--- a/handler.py
+++ b/handler.py
@@ -210,7 +210,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
     @run_on_executor
     def _post(self, *args, **kwargs):
         query_para = json.loads(self.request.body)
-        encrypted_columns = {}
+        encrypted_columns = None
         ciphertext = True
         if "create_table" in query_para.keys():
             query = query_para['create_table']
-- 
2.43.0


From dd558f6a85d363c2c81539b67cf641948d6d43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 27/90] fix: the schema endpoint found no tables, repeated
 columns and refused ids of several digits

---
 handler.py | 10 +++++++++-
 service.py |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/handler.py b/handler.py
index 3485628..9c406a9 100644
--- a/handler.py
+++ b/handler.py
@@ -747,7 +747,8 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
         db_info = cu.fetchall()
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
-            db = connection_url[13:]
+            # the catalog knows the database, not the server
+            db = connection_url[13:].split("/")[1]
             cu.execute(
                 "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
             self.write(self.format_result(cu.fetchall()))
@@ -782,6 +783,13 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
                         "dbType": "INT UNSIGNED",
                         "length": 20
                     }
+                else:
+                    format_col = {
+                        "name": key if value['plaintext'] else key + " *",
+                        "javaType": value['type'].upper(),
+                        "dbType": value['type'].upper(),
+                        "length": 20
+                    }
             if row[0] == table["name"]:
                 table["columns"].append(format_col)
             else:
diff --git a/service.py b/service.py
index e8c765e..f1f042a 100644
--- a/service.py
+++ b/service.py
@@ -23,9 +23,9 @@ HANDLERS = [
             name=QueryHandler.__name__),
     URLSpec(r'/create_table', CreateHandler,
             name=CreateHandler.__name__),
-    URLSpec(r'/jdbc_query/component/?([?P<component_id>\w])?', QueryComponentHandler,
+    URLSpec(r'/jdbc_query/component/?(\w+)?', QueryComponentHandler,
             name=QueryComponentHandler.__name__),
-    URLSpec(r'/jdbc_query/schema/?([?P<component_id>\w])?', SchemaHandler,
+    URLSpec(r'/jdbc_query/schema/?(\w+)?', SchemaHandler,
             name=SchemaHandler.__name__),
     URLSpec(r'/encrypt_sql', EncryptSqlHandler,
             name=SchemaHandler.__name__),
-- 
2.43.0


From f4ef7053699df68af5952d0fcc29622ed7e3b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 28/90] fix: concurrent requests looked their data source up on
 one shared connection

---
 handler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/handler.py b/handler.py
index 9c406a9..6972856 100644
--- a/handler.py
+++ b/handler.py
@@ -3,6 +3,7 @@ import abc
 import json
 import logging
 import sqlite3
+import threading
 import yaml
 
 import tornado.web
@@ -35,7 +36,12 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
         db_conn = sqlite3.connect(config['meta']['sqlite'])
 
 
+local = threading.local()
+
+
 def test_connection(_db_conn):
+    # requests are served by many threads, which must not share one connection
+    _db_conn = getattr(local, 'db_conn', None)
     try:
         _db_conn.ping()
     except:
@@ -46,6 +52,7 @@ def test_connection(_db_conn):
             passwd=config['meta']['mysql']["passwd"],
             port=int(config['meta']['mysql']["port"])
         )
+        local.db_conn = _db_conn
     return _db_conn
 
 
-- 
2.43.0


From 33848adae2527b47fbbe36978ad66b59b5d07150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 29/90] fix: the catalog's col_info column was too short for
 encrypted columns

---
 README.md             | 2 +-
 data/schema-mysql.sql | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 6238bcd..1c2f8b3 100644
--- a/README.md
+++ b/README.md
@@ -14,7 +14,7 @@ create table p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 ```
diff --git a/data/schema-mysql.sql b/data/schema-mysql.sql
index 78cd1a3..efd21ad 100644
--- a/data/schema-mysql.sql
+++ b/data/schema-mysql.sql
@@ -156,7 +156,7 @@ IF NOT EXISTS p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 
-- 
2.43.0


From 7725bef97719e9bac9dec9bbb366cb6cb35bed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 30/90] fix: a derived table of one column was taken for that
 column

---
 scheduler/handers/clause/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/handers/clause/utils.py b/scheduler/handers/clause/utils.py
index 40668af..c692245 100644
--- a/scheduler/handers/clause/utils.py
+++ b/scheduler/handers/clause/utils.py
@@ -3,6 +3,8 @@ def get_table(k_word, _from):
     if k_word in ['from', 'join', 'left join', 'right join', 'inner join', 'value'] and isinstance(_from, str):
         return _from
     if isinstance(_from, dict):
+        if 'from' in _from:  # a query, whose only selected column is no table
+            return get_table('from', _from['from'])
         for _k, _v in _from.items():
             r = get_table(_k, _v)
             if r is None:
-- 
2.43.0


From efcf10a88a058dc2c6bc4465d1ffaa5c460ff0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 31/90] fix: texts with line breaks, backslashes or quotes were
 refused or changed when parsed and formatted

---
 sql_parsing/formatting.py |  2 +-
 sql_parsing/utils.py      | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 1a02044..88a3d52 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -373,7 +373,7 @@ class Formatter:
                 self._literal(v, precedence["literal"]) for v in json
             ))
         elif isinstance(json, string_types):
-            return "'{0}'".format(json.replace("'", "''"))
+            return "'{0}'".format(json.replace("\\", "\\\\").replace("'", "''"))
         elif isinstance(json, dict):
             return self._literal(json["literal"])
         else:
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 78640a0..c221df6 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -8,6 +8,7 @@
 #
 
 import ast
+import re
 
 from dots import is_data, is_null, Data, from_data
 from parsing_future import text, number_types, binary_type, flatten
@@ -582,10 +583,16 @@ def unquote(tokens):
     return un
 
 
+string_escapes = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "%": "\\%", "_": "\\_"}
+
+
 def to_string(tokens):
-    val = tokens[0]
-    val = "'" + val[1:-1].replace("''", "\\'") + "'"
-    return {"literal": ast.literal_eval(val)}
+    quote, val = tokens[0][0], tokens[0][1:-1]
+    return {"literal": re.sub(
+        r"\\([\s\S])|" + quote * 2,
+        lambda m: string_escapes.get(m.group(1), m.group(1)) if m.group(1) else quote,
+        val
+    )}
 
 
 # NUMBERS
@@ -608,8 +615,8 @@ hex_num = (
 )
 
 # STRINGS
-ansi_string = Regex(r"\'(\'\'|[^'])*\'") / to_string
-mysql_doublequote_string = Regex(r'\"(\"\"|[^"])*\"') / to_string
+ansi_string = Regex(r"\'(\'\'|\\[\s\S]|[^'\\])*\'") / to_string
+mysql_doublequote_string = Regex(r'\"(\"\"|\\[\s\S]|[^"\\])*\"') / to_string
 
 # BASIC IDENTIFIERS
 ansi_ident = Regex(r'\"(\"\"|[^"])*\"') / unquote
-- 
2.43.0


From 27520163446d11a9977c022d910c17cf2cbde661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 32/90] fix: a catalog that could not be loaded left the proxy
 without catalog for good

---
 scheduler/schema/metadata.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index ec80a87..8830383 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -2,6 +2,7 @@ import re
 import json
 import yaml
 import sqlite3
+import threading
 from copy import deepcopy
 
 from sql_parsing import format
@@ -92,14 +93,19 @@ FUNC_CIPHERS = {
 
 class Delta(object):
     __instance = None
+    __lock = threading.Lock()
     meta = None
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
-        if Delta.__instance is None:
-            Delta.__instance = object.__new__(cls, *args, **kwargs)
-            cls.db_conn = db_conn
-            cls.meta = cls.load_delta()
+        with Delta.__lock:
+            if Delta.__instance is None:
+                # visible once the catalog is loaded, a failed load is tried again
+                cls.db_conn = cls.db_conn or db_conn
+                if config['meta']['type'] == 'mysql':
+                    cls.db_conn = test_connection(cls.db_conn)
+                cls.meta = cls.load_delta()
+                Delta.__instance = object.__new__(cls, *args, **kwargs)
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-- 
2.43.0


From 82a0b59322132cdce9764a1c86d896622d23e9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 33/90] fix: after a catalog change of unknown outcome the
 proxy kept its old view of the catalog

---
 scheduler/schema/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 8830383..3966931 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -132,6 +132,8 @@ class Delta(object):
                 self.db_conn.rollback()
             except Exception:
                 pass
+            # a lost commit may have changed the catalog all the same, it is read again
+            Delta.__instance = None
             raise
 
     def update_db_meta(self, db_name, table_meta):
-- 
2.43.0


From 78edd372219f4f3aa2c8af0f223a3f1bd63b2474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 34/90] fix: dropping a table removed tables whose names differ
 only in case from the catalog

---
 scheduler/schema/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 3966931..c81274f 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -116,7 +116,9 @@ class Delta(object):
         return self.meta
 
     def delete_delta(self, db, table):
-        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
+        # not by its name, the catalog's collation may ignore case
+        sql = "delete from p_db_meta where database_name = '{}' and table_anonymous = '{}'".format(
+            db, self.meta[db][table]['anonymous'])
         self.write_db_meta(lambda cu: cu.execute(sql))
         self.meta[db].pop(table, None)
 
-- 
2.43.0


From 3f3d305c07c6928539298f121fdbebff0b4a9fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 35/90] fix: ciphertext=true failed when a DECIMAL or date was
 among the values

---
 scheduler/backend/executors/decrypt_executor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scheduler/backend/executors/decrypt_executor.py b/scheduler/backend/executors/decrypt_executor.py
index 326c3bc..c696017 100644
--- a/scheduler/backend/executors/decrypt_executor.py
+++ b/scheduler/backend/executors/decrypt_executor.py
@@ -1,5 +1,7 @@
+import datetime
 import logging
 import time
+from decimal import Decimal
 from scheduler.backend.executors.abstract_executor import AbstractQueryExecutor
 logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
@@ -18,12 +20,21 @@ class DecryptQueryExecutor(AbstractQueryExecutor):
         if result:
             if 'ciphertext' in query_info and query_info['ciphertext']:
                 logger.info("decrypt:{}".format(time.time() - start_time))
-                return result
+                # values JSON does not know are converted as those of plaintext columns are
+                return [tuple(self.json_value(value) for value in row) for row in result]
             result = self.handler(executor).decrypt(result, select_columns, db_meta, table)
             logger.info("decrypt:{}".format(time.time() - start_time))
             return result
         logger.info("decrypt:{}".format(time.time() - start_time))
         return []
 
+    @staticmethod
+    def json_value(value):
+        if isinstance(value, Decimal):
+            return int(value) if value == value.to_integral_value() else float(value)
+        if isinstance(value, datetime.datetime):
+            return value.strftime("%Y-%m-%d %H:%M:%S")
+        return value
+
     def decrypt1(self, data, select_state, query_info, select_columns, db_meta, table):
         return self.handler([]).decrypt1(data, select_columns, db_meta, table, select_state)
\ No newline at end of file
-- 
2.43.0


From c6b49f5e3ff6e8166cffffbf781a06387be7eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 36/90] fix: jdbc_query lost values of columns with the same
 name, max and min of one column for example

---
 handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handler.py b/handler.py
index 6972856..196ca9d 100644
--- a/handler.py
+++ b/handler.py
@@ -289,6 +289,9 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
                       "error": None}
         order_columns = []
         for k, v in zip(*columns):
+            # a row has one value for each name
+            while k in order_columns:
+                k += '_'
             format_res['columns'].append(build_columns(k, v))
             order_columns.append(k)
         result = res["result"]
-- 
2.43.0


From 8a504676a36bc24c3a54dd1042439c340594fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:33 +0000
Subject: [PATCH 37/90] fix: requests for data sources that are not supported
 were answered as if they had been performed

---
 handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/handler.py b/handler.py
index 196ca9d..a94dc5a 100644
--- a/handler.py
+++ b/handler.py
@@ -265,7 +265,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
                 c_e.do_create()
                 return {}
         else:
-            return {}
+            raise ValueError('data source {} is not supported'.format(data_source_id))
 
     @gen.coroutine
     def post(self, *args, **kwargs):
@@ -370,7 +370,7 @@ class EncryptSqlHandler(tornado.web.RequestHandler, ABC):
             res = c_e.do_convert()
             return res
         else:
-            return {'encrypt_sql': ''}
+            raise ValueError('data source {} is not supported'.format(data_source_id))
 
     @gen.coroutine
     def post(self, *args, **kwargs):
@@ -581,7 +581,7 @@ class CreateHandler(tornado.web.RequestHandler, ABC):
             c_e.do_create()
             return {}
         else:
-            return {}
+            raise ValueError('data source {} is not supported'.format(data_source_id))
 
     @gen.coroutine
     def post(self, *args, **kwargs):
-- 
2.43.0


From fcb505609b217980e999af1f6b46071df6b6b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:40 +0000
Subject: [PATCH 38/90] fix: a schema request that failed left an old snapshot
 behind for later requests of its thread

---
 handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/handler.py b/handler.py
index a94dc5a..a69fe08 100644
--- a/handler.py
+++ b/handler.py
@@ -44,6 +44,8 @@ def test_connection(_db_conn):
     _db_conn = getattr(local, 'db_conn', None)
     try:
         _db_conn.ping()
+        # a request that failed may have left its transaction, and with it an old snapshot, behind
+        _db_conn.rollback()
     except:
         _db_conn = mysql.connector.connect(
             host=config['meta']['mysql']["host"],
-- 
2.43.0


From 24d9ff15a0c50aef54685318737f4e877974c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 39/90] fix: a connection that failed in a transaction and
 could not be reopened went on with its uncommitted work

---
 dbutils/steady_db.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dbutils/steady_db.py b/dbutils/steady_db.py
index 7381909..80fc24d 100644
--- a/dbutils/steady_db.py
+++ b/dbutils/steady_db.py
@@ -421,6 +421,7 @@ class SteadyDBConnection:
 
     def commit(self):
         """Commit any pending transaction."""
+        transaction = self._transaction
         self._transaction = False
         try:
             self._con.commit()
@@ -428,7 +429,8 @@ class SteadyDBConnection:
             try:  # try to reopen the connection
                 con = self._create()
             except Exception:
-                pass
+                if transaction:  # it must not be continued
+                    self._close()
             else:
                 self._close()
                 self._store(con)
@@ -436,6 +438,7 @@ class SteadyDBConnection:
 
     def rollback(self):
         """Rollback pending transaction."""
+        transaction = self._transaction
         self._transaction = False
         try:
             self._con.rollback()
@@ -443,7 +446,8 @@ class SteadyDBConnection:
             try:  # try to reopen the connection
                 con = self._create()
             except Exception:
-                pass
+                if transaction:  # it must not be continued
+                    self._close()
             else:
                 self._close()
                 self._store(con)
@@ -499,8 +503,8 @@ class SteadyDBConnection:
                     con.close()
                 except Exception:
                     pass
-            if transaction:
-                self._transaction = False
+            if transaction:  # it must not be continued
+                self._close()
             raise error  # re-raise the original error again
         return cursor
 
@@ -682,8 +686,8 @@ class SteadyDBCursor:
                         con2.close()
                     except Exception:
                         pass
-                if transaction:
-                    con._transaction = False
+                if transaction:  # it must not be continued
+                    con._close()
                 raise error  # re-raise the original error again
             else:
                 con._usage += 1
-- 
2.43.0


From c5aae4e84a11c66662b7a7a1c907c5a99f64f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 40/90] fix: a shareable connection was refused, or one in a
 transaction handed over, while another thread began a transaction

---
 dbutils/pooled_db.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 09dc715..b7f7d74 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -287,12 +287,15 @@ class PooledDB:
         """
         if shareable and self._maxshared:
             with self._lock:
-                while not self._can_open_shared() and (
-                        not self._shared_cache
-                        or min(self._shared_cache).con._transaction):
-                    # do not share connections which are in a transaction
+                while True:
+                    if self._can_open_shared():
+                        con = None
+                        break
+                    con = self._can_share()
+                    if con:
+                        break
                     self._wait_lock()
-                if self._can_open_shared():
+                if not con:
                     # shared cache is not full, get a dedicated connection
                     try:  # first try to get it from the idle cache
                         con = self._idle_cache.pop(0)
@@ -302,13 +305,11 @@ class PooledDB:
                         con._ping_check()  # check this connection
                     con = SharedDBConnection(con)
                     self._connections += 1
+                    # put the connection into the shared cache
+                    self._shared_cache.append(con)
                 else:  # shared cache full or no more connections allowed
-                    self._shared_cache.sort()  # least shared connection first
-                    con = self._shared_cache.pop(0)  # get it
                     con.con._ping_check()  # check the underlying connection
                     con.share()  # increase share of this connection
-                # put the connection (back) into the shared cache
-                self._shared_cache.append(con)
                 self._lock.notify_all()
             con = PooledSharedDBConnection(self, con)
         else:  # try to get a dedicated connection
@@ -333,6 +334,15 @@ class PooledDB:
             self._maxconnections
             and self._connections >= self._maxconnections)
 
+    def _can_share(self):
+        """Get the least shared connection that is not in a transaction.
+
+        The other threads may begin and end transactions meanwhile, so every
+        connection is looked at only once.
+        """
+        cons = [con for con in self._shared_cache if not con.con._transaction]
+        return min(cons, key=lambda con: con.shared) if cons else None
+
     def dedicated_connection(self):
         """Alias for connection(shareable=False)."""
         return self.connection(False)
-- 
2.43.0


From 561c7235038e5a8691fa957e76dd68089acec60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 41/90] fix: a request was refused while the last holder of a
 shared connection was returning it

---
 dbutils/pooled_db.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index b7f7d74..5a1c20b 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -357,10 +357,11 @@ class PooledDB:
                     self._shared_cache.remove(con)  # from shared cache
                 except ValueError:
                     pass  # pool has already been closed
+                # and add it to the idle cache, with the lock still held:
+                # in between it could be neither shared nor opened anew
+                self.cache(con.con)
             else:  # the connection may have left its transaction
                 self._lock.notify_all()
-        if not shared:  # connection has become idle,
-            self.cache(con.con)  # so add it to the idle cache
 
     def cache(self, con):
         """Put a dedicated connection back into the idle cache."""
-- 
2.43.0


From 2f67ddc26757f4f037350b395fcd9ebd3169b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 42/90] fix: of several waiting requests only one was woken,
 perhaps one that could not be served

---
 dbutils/pooled_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 5a1c20b..47eec87 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -373,7 +373,7 @@ class PooledDB:
             else:  # if the idle cache is already full,
                 con.close()  # then close the connection
             self._connections -= 1
-            self._lock.notify()
+            self._lock.notify_all()  # not every waiting request can be served
 
     def close(self):
         """Close all connections in the pool."""
-- 
2.43.0


From b30336e901d56cf353c4dd23d454d5496bdafb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 43/90] fix: two threads returning the same pooled connection
 returned it twice

---
 dbutils/pooled_db.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 47eec87..2df344a 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -430,9 +430,10 @@ class PooledDedicatedDBConnection:
         """Close the pooled dedicated connection."""
         # Instead of actually closing the connection,
         # return it to the pool for future reuse.
-        if self._con:
-            self._pool.cache(self._con)
-            self._con = None
+        # given up first, it must not be returned by two threads
+        con, self._con = self._con, None
+        if con:
+            self._pool.cache(con)
 
     def __getattr__(self, name):
         """Proxy all members of the class."""
@@ -522,9 +523,11 @@ class PooledSharedDBConnection:
         """Close the pooled shared connection."""
         # Instead of actually closing the connection,
         # unshare it and/or return it to the pool.
-        if self._con:
-            self._pool.unshare(self._shared_con)
-            self._shared_con = self._con = None
+        # given up first, it must not be returned by two threads
+        con, self._con = self._con, None
+        if con:
+            shared_con, self._shared_con = self._shared_con, None
+            self._pool.unshare(shared_con)
 
     def __getattr__(self, name):
         """Proxy all members of the class."""
-- 
2.43.0


From 533c115284079142c2fc4014a7bdc54ed25d66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 44/90] fix: a connection whose rollback failed went back into
 the pool with its transaction

---
 dbutils/steady_db.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dbutils/steady_db.py b/dbutils/steady_db.py
index 80fc24d..d295134 100644
--- a/dbutils/steady_db.py
+++ b/dbutils/steady_db.py
@@ -329,10 +329,14 @@ class SteadyDBConnection:
         Rollback if forced or the connection was in a transaction.
         """
         if not self._closed and (force or self._transaction):
+            con = self._con
             try:
                 self.rollback()
             except Exception:
-                pass
+                if self._con is con:  # it was neither reset nor replaced
+                    self._close()
+        if self._closed:
+            self._transaction = False
 
     def _ping_check(self, ping=1, reconnect=True):
         """Check whether the connection is still alive using ping().
-- 
2.43.0


From d4074031e4778d1f027459ba906735a97e245954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 45/90] fix: a transaction that could not be begun was taken
 for begun

---
 dbutils/steady_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbutils/steady_db.py b/dbutils/steady_db.py
index d295134..fb7a9fc 100644
--- a/dbutils/steady_db.py
+++ b/dbutils/steady_db.py
@@ -415,13 +415,14 @@ class SteadyDBConnection:
         If the underlying driver supports this method, it will be called
         with the given parameters (e.g. for distributed transactions).
         """
-        self._transaction = True
         try:
             begin = self._con.begin
         except AttributeError:
             pass
         else:
             begin(*args, **kwargs)
+        # only now: nothing was begun if the driver failed
+        self._transaction = True
 
     def commit(self):
         """Commit any pending transaction."""
-- 
2.43.0


From 1df11497fdb69eb2cbd936024f53754c73d1d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 46/90] fix: a transaction was taken for ended although its end
 had failed

---
 dbutils/steady_db.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dbutils/steady_db.py b/dbutils/steady_db.py
index fb7a9fc..c8d1a63 100644
--- a/dbutils/steady_db.py
+++ b/dbutils/steady_db.py
@@ -440,6 +440,9 @@ class SteadyDBConnection:
                 self._close()
                 self._store(con)
             raise error  # re-raise the original error
+        except Exception:  # the transaction is not over
+            self._transaction = transaction
+            raise
 
     def rollback(self):
         """Rollback pending transaction."""
@@ -457,19 +460,29 @@ class SteadyDBConnection:
                 self._close()
                 self._store(con)
             raise error  # re-raise the original error
+        except Exception:  # the transaction is not over
+            self._transaction = transaction
+            raise
 
     def cancel(self):
         """Cancel a long-running transaction.
 
         If the underlying driver supports this method, it will be called.
         """
+        transaction = self._transaction
         self._transaction = False
         try:
             cancel = self._con.cancel
         except AttributeError:
             pass
         else:
-            cancel()
+            try:
+                cancel()
+            except self._failures:
+                raise
+            except Exception:  # the transaction is not over
+                self._transaction = transaction
+                raise
 
     def ping(self, *args, **kwargs):
         """Ping connection."""
-- 
2.43.0


From bb69cd1c372cd4474406a21b9a8fbf24a8403048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:25 +0000
Subject: [PATCH 47/90] fix: a DOUBLE or FLOAT value given as an integer
 literal is encoded like the same value given with a fraction

---
 scheduler/crypto/encrypt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 7b6e1a3..0d4f8e3 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -61,8 +61,8 @@ def inverse_stretch(val):
 
 
 def encode(val, val_type):
-    if val_type in ['float', 'double'] and isinstance(val, str):
-        val = float(val)
+    if val_type in ['float', 'double']:
+        val = float(val)  # 123456789 and 123456789.0 are the same value
     if val_type == 'float':
         return round(val * 10 ** 12)
     if val_type == 'double':
-- 
2.43.0


From 282f266ccb523a263913dcae1a2cfda64305dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:17 +0000
Subject: [PATCH 48/90] fix: IF, CASE, WHILE, LOOP and REPEAT blocks, CASE
 expressions and IF functions in routine bodies no longer make the splitter
 cut inside the body or miss its end

---
 .../parse/engine/statement_splitter.py        | 53 ++++++++++++-------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/scheduler/compile/parse/engine/statement_splitter.py b/scheduler/compile/parse/engine/statement_splitter.py
index bcfe1f9..b6fad5e 100644
--- a/scheduler/compile/parse/engine/statement_splitter.py
+++ b/scheduler/compile/parse/engine/statement_splitter.py
@@ -19,7 +19,10 @@ class StatementSplitter:
         """Set the filter attributes to its default values"""
         self._in_declare = False
         self._is_create = False
-        self._begin_depth = 0
+        # open BEGIN, IF, CASE, WHILE, ... of a CREATE: True for statements,
+        # False for CASE expressions
+        self._blocks = []
+        self._last = None  # last token that is neither whitespace nor comment
 
         self.consume_ws = False
         self.tokens = []
@@ -33,13 +36,23 @@ class StatementSplitter:
             return 1
         elif ttype is T.Punctuation and value == ')':
             return -1
-        elif ttype not in T.Keyword:  # if normal token return
+
+        unified = ' '.join(value.upper().split())
+
+        # IF, WHILE, ... open a block where a statement may begin, elsewhere
+        # they are functions (IF(a, b, c)) or clauses (IF EXISTS, CURSOR FOR)
+        is_start = (bool(self._blocks) and self._blocks[-1]
+                    and self._last in (';', 'BEGIN', 'THEN', 'ELSE', 'DO',
+                                       'LOOP', 'REPEAT', ':'))
+        if (unified in ('IF', 'FOR', 'WHILE', 'LOOP', 'REPEAT') and is_start
+                and (ttype in T.Keyword or ttype is T.Name)):
+            self._blocks.append(True)
+            return 1
+
+        if ttype not in T.Keyword:  # if normal token return
             return 0
 
         # Everything after here is ttype = T.Keyword
-        # Also to note, once entered an If statement you are done and basically
-        # returning
-        unified = value.upper()
 
         # three keywords begin with CREATE, but only one of them is DDL
         # DDL Create though can contain more words such as "or replace"
@@ -48,30 +61,27 @@ class StatementSplitter:
             return 0
 
         # can have nested declare inside of being...
-        if unified == 'DECLARE' and self._is_create and self._begin_depth == 0:
+        if unified == 'DECLARE' and self._is_create and not self._blocks:
             self._in_declare = True
+            self._blocks.append(True)
             return 1
 
         if unified == 'BEGIN':
-            self._begin_depth += 1
-            if self._is_create:
-                # FIXME(andi): This makes no sense.
+            if self._in_declare and len(self._blocks) == 1:
+                # the declarations belong to this block
+                self._in_declare = False
+            elif self._is_create:
+                self._blocks.append(True)
                 return 1
             return 0
 
-        # Should this respect a preceding BEGIN?
-        # In CASE ... WHEN ... END this results in a split level -1.
-        # Would having multiple CASE WHEN END and a Assignment Operator
-        # cause the statement to cut off prematurely?
-        if unified == 'END':
-            self._begin_depth = max(0, self._begin_depth - 1)
-            return -1
-
-        if (unified in ('IF', 'FOR', 'WHILE', 'CASE')
-                and self._is_create and self._begin_depth > 0):
+        # END CASE are two tokens, the second one opens nothing
+        if unified == 'CASE' and self._blocks and self._last != 'END':
+            self._blocks.append(is_start)
             return 1
 
-        if unified in ('END IF', 'END FOR', 'END WHILE'):
+        if unified.split(' ')[0] == 'END' and self._blocks:
+            self._blocks.pop()
             return -1
 
         # Default
@@ -96,6 +106,9 @@ class StatementSplitter:
             # Change current split level (increase, decrease or remain equal)
             self.level += self._change_splitlevel(ttype, value)
 
+            if ttype not in T.Whitespace and ttype not in T.Comment:
+                self._last = ' '.join(value.upper().split())
+
             # Append the token to the current statement
             self.tokens.append(sql.Token(ttype, value))
 
-- 
2.43.0


From d8d9f4bce1ef570dbd14d820d2c300550a033cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:34 +0000
Subject: [PATCH 49/90] fix: formatting keeps the parentheses of nested
 arithmetic, bit operations, comparisons and NOT

---
 sql_parsing/formatting.py | 39 ++++++++++++++++++++++++---------------
 sql_parsing/keywords.py   | 19 ++++++++++---------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 88a3d52..d678d47 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -19,6 +19,9 @@ from sql_parsing.keywords import RESERVED, join_keywords, precedence
 from sql_parsing.utils import binary_ops, is_set_op
 
 MAX_PRECEDENCE = 100
+# COMPARISONS DO NOT CHAIN: WHAT THEY COMPARE MUST BIND TIGHTER THAN ANY OF THEM
+NON_ASSOCIATIVE = {precedence["eq"], precedence["in"]}
+OPERAND_PRECEDENCE = precedence["binary_or"]
 VALID = re.compile(r"^[a-zA-Z_]\w*$")
 
 
@@ -75,11 +78,14 @@ def Operator(_op):
             k, v = first(json.items())
             json = [k, {"literal": v}]
 
+        if op_prec in NON_ASSOCIATIVE:
+            first_prec = next_prec = OPERAND_PRECEDENCE
+        else:
+            # OPERATORS OF THE SAME LEVEL GROUP TO THE LEFT
+            first_prec, next_prec = op_prec, op_prec - 0.25
+
         for i, v in enumerate(listwrap(json)):
-            if i == 0:
-                acc.append(self.dispatch(v, op_prec + 0.25))
-            else:
-                acc.append(self.dispatch(v, op_prec))
+            acc.append(self.dispatch(v, first_prec if i == 0 else next_prec))
         if prec >= op_prec:
             return op.join(acc)
         else:
@@ -292,13 +298,16 @@ class Formatter:
             return f"{key.upper()}({params})"
 
     def _binary_not(self, value, prec):
-        return "~{0}".format(self.dispatch(value))
+        return "~{0}".format(self.dispatch(value, precedence["literal"]))
+
+    def _not(self, value, prec):
+        return "NOT ({0})".format(self.dispatch(value))
 
     def _exists(self, value, prec):
-        return "{0} IS NOT NULL".format(self.dispatch(value, precedence["is"]))
+        return "{0} IS NOT NULL".format(self.dispatch(value, OPERAND_PRECEDENCE))
 
     def _missing(self, value, prec):
-        return "{0} IS NULL".format(self.dispatch(value, precedence["is"]))
+        return "{0} IS NULL".format(self.dispatch(value, OPERAND_PRECEDENCE))
 
     def _collate(self, pair, prec):
         return "{0} COLLATE {1}".format(
@@ -310,7 +319,7 @@ class Formatter:
         if "literal" in set:
             set = {"literal": listwrap(set["literal"])}
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, OPERAND_PRECEDENCE)
             + " IN "
             + self.dispatch(set, precedence["in"])
         )
@@ -323,7 +332,7 @@ class Formatter:
         if "literal" in set:
             set = {"literal": listwrap(set["literal"])}
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, OPERAND_PRECEDENCE)
             + " NOT IN "
             + self.dispatch(set, precedence["in"])
         )
@@ -387,9 +396,9 @@ class Formatter:
 
     def _between(self, json, prec):
         return "{0} BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], OPERAND_PRECEDENCE),
+            self.dispatch(json[1], OPERAND_PRECEDENCE),
+            self.dispatch(json[2], OPERAND_PRECEDENCE),
         )
 
     def _trim(self, json, prec):
@@ -411,9 +420,9 @@ class Formatter:
 
     def _not_between(self, json, prec):
         return "{0} NOT BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], OPERAND_PRECEDENCE),
+            self.dispatch(json[1], OPERAND_PRECEDENCE),
+            self.dispatch(json[2], OPERAND_PRECEDENCE),
         )
 
     def _distinct(self, json, prec):
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 9f4eaff..c2a1c73 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -247,18 +247,18 @@ precedence = {
     "collate": 0,
     "concat": 1,
     "mul": 2,
-    "div": 1.5,
+    "div": 2,
     "mod": 2,
-    "neg": 3,
+    "neg": 2.5,
     "add": 3,
-    "sub": 2.5,
-    "binary_not": 4,
+    "sub": 3,
+    "binary_not": 3.5,
     "binary_and": 4,
-    "binary_or": 4,
-    "gte": 5,
-    "lte": 5,
-    "lt": 5,
-    "gt": 6,
+    "binary_or": 4.5,
+    "gte": 7,
+    "lte": 7,
+    "lt": 7,
+    "gt": 7,
     "eq": 7,
     "neq": 7,
     "missing": 7,
@@ -275,6 +275,7 @@ precedence = {
     "not_rlike": 8,
     "similar_to": 8,
     "not_similar_to": 8,
+    "not": 9,
     "and": 10,
     "or": 11,
     "lambda": 12,
-- 
2.43.0


From fbb84f0f299161c416f4a3a9a3b3dc9c5a295835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:34 +0000
Subject: [PATCH 50/90] fix: IN with one member, unary minus, CONCAT, EXISTS
 and USING are formatted as the SQL that was parsed

---
 sql_parsing/formatting.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index d678d47..008413f 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -134,9 +134,15 @@ ordered_clauses = [
 ]
 
 
+def is_query(json):
+    return isinstance(json, dict) and bool(
+        json.keys() & {"select", "select_distinct", *is_set_op}
+        or json.keys() & set(ordered_clauses)
+    )
+
+
 class Formatter:
     # infix operators
-    _concat = Operator("||")
     _mul = Operator("*")
     _div = Operator("/")
     _mod = Operator("%")
@@ -303,7 +309,18 @@ class Formatter:
     def _not(self, value, prec):
         return "NOT ({0})".format(self.dispatch(value))
 
+    def _neg(self, value, prec):
+        sql = self.dispatch(value, precedence["literal"])
+        return f"-({sql})" if sql.startswith("-") else f"-{sql}"
+
+    def _concat(self, value, prec):
+        # MYSQL READS || AS OR
+        params = ", ".join(self.dispatch(p) for p in listwrap(value))
+        return f"CONCAT({params})"
+
     def _exists(self, value, prec):
+        if is_query(value):
+            return "EXISTS {0}".format(self.dispatch(value, OPERAND_PRECEDENCE))
         return "{0} IS NOT NULL".format(self.dispatch(value, OPERAND_PRECEDENCE))
 
     def _missing(self, value, prec):
@@ -314,14 +331,20 @@ class Formatter:
             self.dispatch(pair[0], precedence["collate"]), pair[1]
         )
 
+    def _members(self, set):
+        if isinstance(set, dict) and "literal" in set:
+            return self._literal(listwrap(set["literal"]), precedence["in"])
+        elif isinstance(set, list) or is_query(set):
+            return self.dispatch(set, precedence["in"])
+        else:
+            return f"({self.dispatch(set)})"
+
     def _in(self, json, prec):
         member, set = json
-        if "literal" in set:
-            set = {"literal": listwrap(set["literal"])}
         sql = (
             self.dispatch(member, OPERAND_PRECEDENCE)
             + " IN "
-            + self.dispatch(set, precedence["in"])
+            + self._members(set)
         )
         if prec < precedence["in"]:
             sql = f"({sql})"
@@ -329,12 +352,10 @@ class Formatter:
 
     def _nin(self, json, prec):
         member, set = json
-        if "literal" in set:
-            set = {"literal": listwrap(set["literal"])}
         sql = (
             self.dispatch(member, OPERAND_PRECEDENCE)
             + " NOT IN "
-            + self.dispatch(set, precedence["in"])
+            + self._members(set)
         )
         if prec < precedence["in"]:
             sql = f"({sql})"
@@ -459,7 +480,7 @@ class Formatter:
             acc.append(self.dispatch(json["on"]))
         if json.get("using"):
             acc.append("USING")
-            acc.append(self.dispatch(json["using"]))
+            acc.append("(" + ", ".join(self.dispatch(c) for c in listwrap(json["using"])) + ")")
         return " ".join(acc)
 
     def ordered_query(self, json, prec):
-- 
2.43.0


From 4fc5e08199d2e5239596549c56df9e697b0a4c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:34 +0000
Subject: [PATCH 51/90] fix: subqueries in select lists, CASE, SET, IN lists
 and clauses are formatted with their parentheses

---
 sql_parsing/__init__.py   |  2 +-
 sql_parsing/formatting.py | 21 +++++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 2695413..b87f7a8 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -86,7 +86,7 @@ def _parse(parser, sql, null, calls):
 def format(json, **kwargs):
     from sql_parsing.formatting import Formatter
 
-    return Formatter(**kwargs).dispatch(json)
+    return Formatter(**kwargs).format(json)
 
 
 def parse_alter_key(sql):
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 008413f..dfb6d20 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -18,7 +18,8 @@ from parsing import listwrap
 from sql_parsing.keywords import RESERVED, join_keywords, precedence
 from sql_parsing.utils import binary_ops, is_set_op
 
-MAX_PRECEDENCE = 100
+# ANY EXPRESSION, BUT A SUBQUERY NEEDS PARENTHESES
+EXPRESSION_PRECEDENCE = precedence["from"] - 1
 # COMPARISONS DO NOT CHAIN: WHAT THEY COMPARE MUST BIND TIGHTER THAN ANY OF THEM
 NON_ASSOCIATIVE = {precedence["eq"], precedence["in"]}
 OPERAND_PRECEDENCE = precedence["binary_or"]
@@ -175,7 +176,7 @@ class Formatter:
     def format(self, json):
         return self.dispatch(json, 50)
 
-    def dispatch(self, json, prec=100):
+    def dispatch(self, json, prec=EXPRESSION_PRECEDENCE):
         if isinstance(json, list):
             return self.sql_list(json, prec=precedence["list"])
         if isinstance(json, dict):
@@ -209,7 +210,7 @@ class Formatter:
         return text(json)
 
     def sql_list(self, json, prec=precedence["from"] - 1):
-        sql = ", ".join(self.dispatch(element, prec=MAX_PRECEDENCE) for element in json)
+        sql = ", ".join(self.dispatch(element) for element in json)
         if prec >= precedence["from"]:
             return sql
         else:
@@ -288,7 +289,7 @@ class Formatter:
         attr = f"_{key}"
         if hasattr(self, attr) and not key.startswith("_"):
             method = getattr(self, attr)
-            op_prec = precedence.get(key, MAX_PRECEDENCE)
+            op_prec = precedence.get(key, precedence["cast"])
             if prec >= op_prec:
                 return method(value, op_prec)
             else:
@@ -331,7 +332,7 @@ class Formatter:
             self.dispatch(pair[0], precedence["collate"]), pair[1]
         )
 
-    def _members(self, set):
+    def members(self, set):
         if isinstance(set, dict) and "literal" in set:
             return self._literal(listwrap(set["literal"]), precedence["in"])
         elif isinstance(set, list) or is_query(set):
@@ -344,7 +345,7 @@ class Formatter:
         sql = (
             self.dispatch(member, OPERAND_PRECEDENCE)
             + " IN "
-            + self._members(set)
+            + self.members(set)
         )
         if prec < precedence["in"]:
             sql = f"({sql})"
@@ -355,7 +356,7 @@ class Formatter:
         sql = (
             self.dispatch(member, OPERAND_PRECEDENCE)
             + " NOT IN "
-            + self._members(set)
+            + self.members(set)
         )
         if prec < precedence["in"]:
             sql = f"({sql})"
@@ -523,7 +524,7 @@ class Formatter:
             if not isinstance(with_, list):
                 with_ = [with_]
             parts = ", ".join(
-                "{0} AS ({1})".format(part["name"], self.dispatch(part["value"]))
+                "{0} AS ({1})".format(part["name"], self.format(part["value"]))
                 for part in with_
             )
             return "WITH {0}".format(parts)
@@ -591,7 +592,7 @@ class Formatter:
     def orderby(self, json, prec):
         param = ", ".join(
             (
-                self.dispatch(s["value"], precedence["order"])
+                self.dispatch(s["value"])
                 + " "
                 + s.get("sort", "").upper()
             ).strip()
@@ -652,7 +653,7 @@ class Formatter:
                     for row in rows
                 ))
             else:
-                acc.append(self.dispatch(json["query"]))
+                acc.append(self.format(json["query"]))
         return " ".join(acc)
 
     def drop(self, json, prec=precedence["from"]):
-- 
2.43.0


From 3b481e50fe844455397e5b5e66b75946a92deaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:31 +0000
Subject: [PATCH 52/90] fix: table names of INSERT, UPDATE, DELETE and DROP are
 quoted when they need it

---
 sql_parsing/formatting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index dfb6d20..6a8e9ea 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -540,11 +540,11 @@ class Formatter:
             return f"SELECT {param}"
 
     def delete(self, json, prec):
-        param = "FROM " + json['delete']
+        param = "FROM " + self.dispatch(json['delete'])
         return f"DELETE {param}"
 
     def update(self, json, prec):
-        param = json['update']
+        param = self.dispatch(json['update'])
         return f"UPDATE {param}"
 
     def set(self, json, prec):
@@ -618,7 +618,7 @@ class Formatter:
             acc.append("OVERWRITE")
         else:
             acc.append("INTO")
-        acc.append(json["insert"])
+        acc.append(self.dispatch(json["insert"]))
 
         if "columns" in json:
             acc.append(self.sql_list(listwrap(json["columns"])))
@@ -661,7 +661,7 @@ class Formatter:
         values = json['drop']
         if 'table' in values:
             acc.append("TABLE")
-            acc.append(values['table'])
+            acc.append(self.dispatch(values['table']))
         return " ".join(acc)
 
 
-- 
2.43.0


From bbf4312d48b039df90b06b29b324d8b3aaad8941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:31 +0000
Subject: [PATCH 53/90] fix: a FROM list with tables and joins keeps its commas

---
 sql_parsing/formatting.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 6a8e9ea..ccd82a0 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -560,22 +560,19 @@ class Formatter:
         return f"SELECT DISTINCT {param}"
 
     def from_(self, json, prec):
-        is_join = False
         from_ = json["from"]
         if isinstance(from_, dict) and is_set_op & from_.keys():
             source = self.op(from_, precedence["from"])
             return f"FROM {source}"
 
         from_ = listwrap(from_)
-        parts = []
+        rest = ""
         for v in from_:
             if join_keywords & set(v):
-                is_join = True
-                parts.append(self._join_on(v, precedence["from"] - 1))
+                rest += " " + self._join_on(v, precedence["from"] - 1)
             else:
-                parts.append(self.dispatch(v, precedence["from"] - 1))
-        joiner = " " if is_join else ", "
-        rest = joiner.join(parts)
+                rest += ", " if rest else ""
+                rest += self.dispatch(v, precedence["from"] - 1)
         return f"FROM {rest}"
 
     def where(self, json, prec):
-- 
2.43.0


From 512b59533d4769fe8c24a35c82be457d882f4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:51 +0000
Subject: [PATCH 54/90] fix: DROP TABLE IF EXISTS is formatted with IF EXISTS

---
 sql_parsing/formatting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index ccd82a0..998c9a7 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -658,6 +658,8 @@ class Formatter:
         values = json['drop']
         if 'table' in values:
             acc.append("TABLE")
+            if values.get("if_exists"):
+                acc.append("IF EXISTS")
             acc.append(self.dispatch(values['table']))
         return " ".join(acc)
 
-- 
2.43.0


From 750b7a75702f9b3e92c9e663510ab8d1de8728bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:24 +0000
Subject: [PATCH 55/90] fix: WITH over a set operation is formatted whole

---
 sql_parsing/formatting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 998c9a7..be15aee 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -485,12 +485,13 @@ class Formatter:
         return " ".join(acc)
 
     def ordered_query(self, json, prec):
-        if json.keys() & set(unordered_clauses) - {"from"}:
+        if json.keys() & set(unordered_clauses) - {"from", "with"}:
             # regular query
             acc = [self.unordered_query(json, precedence["order"])]
         else:
             # set-op expression
-            acc = [self.dispatch(json["from"], precedence["order"])]
+            acc = [self.with_(json, prec)] if "with" in json else []
+            acc.append(self.dispatch(json["from"], precedence["order"]))
 
         acc.extend(
             part
@@ -506,14 +507,19 @@ class Formatter:
             return f"({sql})"
 
     def unordered_query(self, json, prec):
-        sql = " ".join(
+        acc = [
             part
             for clause in unordered_clauses
             if clause in json
             for part in [getattr(self, clause)(json, precedence["from"])]
             if part
+        ]
+        # WITH ... OVER A SET OPERATION
+        acc.extend(
+            self.op({op: json[op]}, precedence["order"]) for op in is_set_op if op in json
         )
-        if prec >= precedence["from"]:
+        sql = " ".join(acc)
+        if prec >= precedence["order" if "with" in json else "from"]:
             return sql
         else:
             return f"({sql})"
-- 
2.43.0


From e33a8d22a1c37211add572a71b2a138928272acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:07 +0000
Subject: [PATCH 56/90] fix: numbers with a negative exponent and no decimal
 point are read as numbers

---
 sql_parsing/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index c221df6..27c8008 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -9,6 +9,7 @@
 
 import ast
 import re
+from decimal import Decimal
 
 from dots import is_data, is_null, Data, from_data
 from parsing_future import text, number_types, binary_type, flatten
@@ -597,14 +598,14 @@ def to_string(tokens):
 
 # NUMBERS
 real_num = (
-    Regex(r"[+-]?(\d+\.\d*|\.\d+)([eE][+-]?\d+)?").set_parser_name("float")
+    Regex(r"[+-]?((\d+\.\d*|\.\d+)([eE][+-]?\d+)?|\d+[eE]-\d+)").set_parser_name("float")
     / (lambda t: float(t[0]))
 )
 
 
 def parse_int(tokens):
     if "e" in tokens[0].lower():
-        return int(float(tokens[0]))
+        return int(Decimal(tokens[0]))
     else:
         return int(tokens[0])
 
-- 
2.43.0


From 4b6b1e174a5fbf2f20621d73045b004f8f50d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:07 +0000
Subject: [PATCH 57/90] fix: a backslash in a backquoted name is read as it
 stands

---
 sql_parsing/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 27c8008..5987d0a 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -575,7 +575,8 @@ def unquote(tokens):
     elif val.startswith('"') and val.endswith('"'):
         val = '"' + val[1:-1].replace('""', '\\"') + '"'
     elif val.startswith("`") and val.endswith("`"):
-        val = '"' + val[1:-1].replace("``", "`").replace('"', '\\"') + '"'
+        # BACKSLASH IS AN ORDINARY CHARACTER
+        return val[1:-1].replace("``", "`").replace(".", "\\.")
     elif val.startswith("[") and val.endswith("]"):
         val = '"' + val[1:-1].replace("]]", "]").replace('"', '\\"') + '"'
     elif val.startswith("+"):
-- 
2.43.0


From 8425db7d3603b0e44d67899a115dedfae60de8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:40 +0000
Subject: [PATCH 58/90] fix: names that MySQL reserves are quoted

---
 sql_parsing/formatting.py | 13 +++++++------
 sql_parsing/keywords.py   | 28 ++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index be15aee..fd52d01 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -15,7 +15,7 @@ from dots import split_field
 from parsing_future import first, is_text, string_types, text
 from parsing import listwrap
 
-from sql_parsing.keywords import RESERVED, join_keywords, precedence
+from sql_parsing.keywords import MYSQL_RESERVED, RESERVED, join_keywords, precedence
 from sql_parsing.utils import binary_ops, is_set_op
 
 # ANY EXPRESSION, BUT A SUBQUERY NEEDS PARENTHESES
@@ -27,6 +27,8 @@ VALID = re.compile(r"^[a-zA-Z_]\w*$")
 
 
 def is_keyword(identifier):
+    if identifier.lower() in MYSQL_RESERVED:
+        return True
     try:
         RESERVED.parse_string(identifier)
         return True
@@ -383,20 +385,19 @@ class Formatter:
         if not params:
             type = type_name.upper()
         else:
-            type = {type_name.upper(): params}
+            type = self.dispatch({type_name.upper(): params})
 
-        return f"CAST({self.dispatch(expr)} AS {self.dispatch(type)})"
+        return f"CAST({self.dispatch(expr)} AS {type})"
 
     def _extract(self, json, prec):
         interval, value = json["extract"]
-        i = self.dispatch(interval).upper()
+        i = interval.upper()
         v = self.dispatch(value)
         return f"EXTRACT({i} FROM {v})"
 
     def _interval(self, json, prec):
         amount = self.dispatch(json[0], precedence["and"])
-        type = self.dispatch(json[1], precedence["and"])
-        return f"INTERVAL {amount} {type.upper()}"
+        return f"INTERVAL {amount} {json[1].upper()}"
 
     def _literal(self, json, prec=0):
         if isinstance(json, list):
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index c2a1c73..cf33e96 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -223,6 +223,34 @@ RESERVED = MatchFirst([
     WITHIN,
 ])
 
+# https://dev.mysql.com/doc/refman/8.0/en/keywords.html
+MYSQL_RESERVED = set("""
+    accessible add all alter analyze and as asc asensitive before between bigint binary blob
+    both by call cascade case change char character check collate column condition constraint
+    continue convert create cross cube cume_dist current_date current_time current_timestamp
+    current_user cursor database databases day_hour day_microsecond day_minute day_second dec
+    decimal declare default delayed delete dense_rank desc describe deterministic distinct
+    distinctrow div double drop dual each else elseif empty enclosed escaped except exists exit
+    explain false fetch first_value float float4 float8 for force foreign from fulltext function
+    generated get grant group grouping groups having high_priority hour_microsecond hour_minute
+    hour_second if ignore in index infile inner inout insensitive insert int int1 int2 int3 int4
+    int8 integer intersect interval into io_after_gtids io_before_gtids is iterate join
+    json_table key keys kill lag last_value lateral lead leading leave left like limit linear
+    lines load localtime localtimestamp lock long longblob longtext loop low_priority manual
+    master_bind master_ssl_verify_server_cert match maxvalue mediumblob mediumint mediumtext
+    middleint minute_microsecond minute_second mod modifies natural not no_write_to_binlog
+    nth_value ntile null numeric of on optimize optimizer_costs option optionally or order out
+    outer outfile over partition percent_rank precision primary procedure purge range rank read
+    reads read_write real recursive references regexp release rename repeat replace require
+    resignal restrict return revoke right rlike row rows row_number schema schemas
+    second_microsecond select sensitive separator set show signal smallint spatial specific sql
+    sqlexception sqlstate sqlwarning sql_big_result sql_calc_found_rows sql_small_result ssl
+    starting stored straight_join system table terminated then tinyblob tinyint tinytext to
+    trailing trigger true undo union unique unlock unsigned update usage use using utc_date
+    utc_time utc_timestamp values varbinary varchar varcharacter varying virtual when where
+    while window with write xor year_month zerofill
+""".split())
+
 LB = Literal("(").suppress()
 RB = Literal(")").suppress()
 EQ = Char("=").suppress()
-- 
2.43.0


From 3fb37daf2ba3d9adf1922fdbfbfad49d579154f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:52 +0000
Subject: [PATCH 59/90] fix: comments may stand between the words of a compound
 keyword

---
 sql_parsing/keywords.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index cf33e96..405fd5e 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -9,9 +9,17 @@
 
 # SQL CONSTANTS
 from parsing import *
+from parsing.helpers import restOfLine
+from parsing.whitespaces import Whitespace
 
 from sql_parsing.utils import SQL_NULL, keyword
 
+# COMMENTS MAY STAND BETWEEN THE WORDS OF A COMPOUND KEYWORD
+keyword_space = Whitespace().use()
+keyword_space.add_ignore(Literal("--") + restOfLine)
+keyword_space.add_ignore(Literal("#") + restOfLine)
+keyword_space.add_ignore(Literal("/*") + SkipTo("*/", include=True))
+
 NULL = keyword("null") / (lambda: SQL_NULL)
 TRUE = keyword("true") / (lambda: True)
 FALSE = keyword("false") / (lambda: False)
@@ -255,6 +263,8 @@ LB = Literal("(").suppress()
 RB = Literal(")").suppress()
 EQ = Char("=").suppress()
 
+keyword_space.release()
+
 join_keywords = {
     "join",
     "full join",
-- 
2.43.0


From 93c6c59ea71781cae6fabb3c281025c4164d63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:52 +0000
Subject: [PATCH 60/90] fix: prefix operators bind tightest, are operands of
 others, and comparisons group as in MySQL

---
 parsing/infix.py        | 23 +++++++++++++++++++----
 sql_parsing/keywords.py | 18 ++++--------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/parsing/infix.py b/parsing/infix.py
index 7e9d8e8..7b93c65 100644
--- a/parsing/infix.py
+++ b/parsing/infix.py
@@ -14,6 +14,7 @@ from parsing.enhancement import (
     Suppress,
     ZeroOrMore,
 )
+from parsing.exceptions import ParseException
 from parsing.expressions import MatchFirst, Or
 from parsing.results import ParseResults, NO_PARSER
 from parsing.tokens import (
@@ -240,6 +241,12 @@ def infix_notation(
         for expr, op, is_suppressed, arity, assoc, pa in op_list
         if arity == 1 and assoc == RIGHT_ASSOC
     ])
+    # A PREFIX OPERATOR THAT WAITS FOR ITS OPERAND IS NO OPERAND YET
+    prefixes = {
+        op
+        for expr, op, is_suppressed, arity, assoc, pa in op_list
+        if arity == 1 and assoc == RIGHT_ASSOC
+    }
     suffix_ops = MatchFirst([
         op / record_op(op)
         for expr, op, is_suppressed, arity, assoc, pa in op_list
@@ -266,7 +273,7 @@ def infix_notation(
                     # PREFIX OPERATOR -3
                     todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
                     for i, (r, o) in todo:
-                        if o == op:
+                        if o == op and flat_tokens[i + 1][1] not in prefixes:
                             tok = flat_tokens[i + 1][0]
                             if is_suppressed:
                                 result = ParseResults(
@@ -304,7 +311,7 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r, o) in todo:
-                    if o == op:
+                    if o == op and flat_tokens[i + 2][1] not in prefixes:
                         if is_suppressed:
                             result = ParseResults(
                                 expr,
@@ -332,9 +339,9 @@ def infix_notation(
                     todo = list(reversed(todo))
 
                 for i, (r0, o0) in todo:
-                    if o0 == op[0]:
+                    if o0 == op[0] and flat_tokens[i + 2][1] not in prefixes:
                         r1, o1 = flat_tokens[i + 3]
-                        if o1 == op[1]:
+                        if o1 == op[1] and flat_tokens[i + 4][1] not in prefixes:
                             seq = [
                                 flat_tokens[i][0],
                                 flat_tokens[i + 2][0],
@@ -360,6 +367,14 @@ def infix_notation(
             flat_tokens[i : i + offset] = [(result, (expr,))]
             op_index = 0
 
+        if len(flat_tokens) > 1:
+            raise ParseException(
+                tokens.type,
+                flat_tokens[1][0].start,
+                string,
+                msg="Expecting an operator's operands",
+            )
+
         result = flat_tokens[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 405fd5e..c2ae918 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -332,28 +332,18 @@ precedence = {
 
 KNOWN_OPS = [
     COLLATE,
+    NEG,
+    BINARY_NOT,
     CONCAT,
     MUL | DIV | MOD,
-    NEG,
     ADD | SUB,
-    BINARY_NOT,
     BINARY_AND,
     BINARY_OR,
-    GTE | LTE | LT | GT,
-    EEQ | NEQ | DEQ | IDF | INDF,
     AT_TIME_ZONE,
     (BETWEEN, AND),
     (NOT_BETWEEN, AND),
-    IN,
-    NOT_IN,
-    IS_NOT,
-    IS,
-    LIKE,
-    NOT_LIKE,
-    RLIKE,
-    NOT_RLIKE,
-    SIMILAR_TO,
-    NOT_SIMILAR_TO,
+    IN | NOT_IN | LIKE | NOT_LIKE | RLIKE | NOT_RLIKE | SIMILAR_TO | NOT_SIMILAR_TO,
+    IDF | INDF | IS_NOT | IS | DEQ | NEQ | GTE | LTE | EEQ | LT | GT,
     NOT,
     AND,
     OR,
-- 
2.43.0


From e7c40fba8fdce9a6de76c3ceb688fab4a28d8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 61/90] fix: a subquery under DISTINCT keeps its parentheses

---
 sql_parsing/formatting.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index fd52d01..340c0fb 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -449,9 +449,7 @@ class Formatter:
         )
 
     def _distinct(self, json, prec):
-        return "DISTINCT " + ", ".join(
-            self.dispatch(v, precedence["select"]) for v in listwrap(json)
-        )
+        return "DISTINCT " + ", ".join(self.dispatch(v) for v in listwrap(json))
 
     def _select_distinct(self, json, prec):
         return "SELECT DISTINCT " + ", ".join(self.dispatch(v) for v in listwrap(json))
-- 
2.43.0


From 36323f3f12de791f2530a47f8e62058316f6fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 62/90] fix: a join ON a constant false keeps its condition

---
 sql_parsing/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 340c0fb..c1bd241 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -475,7 +475,7 @@ class Formatter:
         acc.append(join_keyword.upper())
         acc.append(self.dispatch(json[join_keyword], precedence["join"]))
 
-        if json.get("on"):
+        if "on" in json:
             acc.append("ON")
             acc.append(self.dispatch(json["on"]))
         if json.get("using"):
-- 
2.43.0


From c6492b3c1e2e0eb545a19e994d3478157f6362b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 63/90] fix: names of common table expressions are quoted

---
 sql_parsing/formatting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index c1bd241..a1f7e6c 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -529,7 +529,9 @@ class Formatter:
             if not isinstance(with_, list):
                 with_ = [with_]
             parts = ", ".join(
-                "{0} AS ({1})".format(part["name"], self.format(part["value"]))
+                "{0} AS ({1})".format(
+                    self.dispatch(part["name"]), self.format(part["value"])
+                )
                 for part in with_
             )
             return "WITH {0}".format(parts)
-- 
2.43.0


From 9ce173441dfb1f998161b52c4b8de9431f52fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 64/90] fix: IS NOT NULL of a subquery's value is not EXISTS

---
 sql_parsing/utils.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 5987d0a..9682905 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -136,6 +136,16 @@ def to_lambda(tokens):
     return Call("lambda", [expr], {"params": list(params)})
 
 
+def to_not_null(operand):
+    inner = operand
+    while isinstance(inner, ParseResults) and len(inner.tokens) == 1:
+        inner = inner.tokens[0]
+    if isinstance(inner, dict) and set(inner.keys()) & {"select", "from", *is_set_op}:
+        # EXISTS OF A QUERY ASKS FOR ITS ROWS, NOT FOR ITS VALUE
+        return Call("not", [Call("missing", operand, {})], {})
+    return Call("exists", operand, {})
+
+
 def to_json_operator(tokens):
     # ARRANGE INTO {op: params} FORMAT
     length = len(tokens.tokens)
@@ -164,9 +174,9 @@ def to_json_operator(tokens):
             return Call("missing", tokens[2], {})
     elif op == "neq":
         if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
+            return to_not_null(tokens[0])
         elif tokens[0] is SQL_NULL:
-            return Call("exists", tokens[2], {})
+            return to_not_null(tokens[2])
     elif op == "eq!":
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
@@ -174,17 +184,17 @@ def to_json_operator(tokens):
             return Call("missing", tokens[2], {})
     elif op == "ne!":
         if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
+            return to_not_null(tokens[0])
         elif tokens[0] is SQL_NULL:
-            return Call("exists", tokens[2], {})
+            return to_not_null(tokens[2])
     elif op == "is":
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
         else:
-            return Call("exists", tokens[0], {})
+            return to_not_null(tokens[0])
     elif op == "is_not":
         if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
+            return to_not_null(tokens[0])
         else:
             return Call("missing", tokens[0], {})
 
-- 
2.43.0


From a3fe5fc08d3703fc96bf7f5bcb68ac868ca16ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 65/90] fix: the negative of a column with a numeric name

---
 sql_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 9682905..93539c8 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -154,7 +154,7 @@ def to_json_operator(tokens):
             return Call("cast", list(tokens), {})
         # UNARY OPERATOR
         op = tokens.tokens[0].type.parser_name
-        if op == "neg" and is_number(tokens[1]):
+        if op == "neg" and isinstance(tokens[1], number_types) and not isinstance(tokens[1], bool):
             return -tokens[1]
         return Call(op, [tokens[1]], {})
     elif length == 5:
-- 
2.43.0


From c2cf50dfa67b3abcd059b2bf2d8fd5c9e0fc2ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 66/90] fix: ORDER BY and LIMIT after a query in parentheses,
 and LIMIT 0 after a union, are kept

---
 sql_parsing/formatting.py | 2 +-
 sql_parsing/utils.py      | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index a1f7e6c..85d7bd8 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -490,7 +490,7 @@ class Formatter:
         else:
             # set-op expression
             acc = [self.with_(json, prec)] if "with" in json else []
-            acc.append(self.dispatch(json["from"], precedence["order"]))
+            acc.append(self.dispatch(json["from"], precedence["union"]))
 
         acc.extend(
             part
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 93539c8..93130f4 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -509,7 +509,10 @@ def to_select_call(tokens):
 def to_union_call(tokens):
     unions = tokens["union"]
     if isinstance(unions, dict):
-        return unions
+        if not set(tokens.keys()) & {"orderby", "limit", "offset", "fetch"}:
+            return unions
+        # A QUERY IN PARENTHESES, WITH CLAUSES OF ITS OWN BEHIND IT
+        output = {"from": unions}
     elif unions.type.parser_name == "unordered sql":
         output = {k: v for k, v in unions.items()}  # REMOVE THE Group()
     else:
@@ -525,7 +528,7 @@ def to_union_call(tokens):
                 acc = {op: [acc, so]}
             last_union = op
 
-        if not tokens["orderby"] and not tokens["offset"] and not tokens["limit"]:
+        if not set(tokens.keys()) & {"orderby", "limit", "offset", "fetch"}:
             return acc
         else:
             output = {"from": acc}
-- 
2.43.0


From 369df852512b788e7ec2719ef016ec096d877365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 67/90] fix: a row of an INSERT with more or fewer values than
 columns is rejected

---
 sql_parsing/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 93130f4..0cbfb10 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -550,10 +550,17 @@ def to_insert_call(tokens):
         values = query["from"]["literal"]
         if values:
             if columns:
+                columns = [columns] if isinstance(columns, text) else list(columns)
                 data = [dict(zip(columns, row)) for row in values]
+                if any(len(row) != len(columns) or len(d) != len(row) for row, d in zip(values, data)):
+                    raise ParseException(
+                        tokens.type, tokens.start, "", msg="Expecting a value for each column"
+                    )
                 return Call("insert", [tokens["table"]], {"values": data, **options})
             else:
                 return Call("insert", [tokens["table"]], {"values": values, **options})
+    except ParseException:
+        raise
     except Exception:
         pass
 
-- 
2.43.0


From da60adab58541d3287aff750e6688a0f9dbe4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 68/90] fix: the WITH of a query in parentheses is kept

---
 sql_parsing/utils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 0cbfb10..110ff56 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -569,11 +569,23 @@ def to_insert_call(tokens):
     )
 
 
+def _ctes(found):
+    if isinstance(found, list):
+        return found
+    if isinstance(found, ParseResults) and not isinstance(found.type, Group):
+        return list(found.tokens)
+    return [found] if found else []
+
+
 def to_query(tokens):
     output = tokens["query"][0]
     try:
-        output["with"] = tokens["with"]
-        output["with_recursive"] = tokens["with_recursive"]
+        for clause in ("with", "with_recursive"):
+            ctes = _ctes(tokens[clause])
+            if ctes:
+                # A QUERY IN PARENTHESES MAY HAVE SOME OF ITS OWN
+                ctes = ctes + _ctes(output[clause] if clause in output else None)
+                output[clause] = ctes if len(ctes) > 1 else ctes[0]
 
         return output
     except Exception as cause:
-- 
2.43.0


From 7224bb0d6ddbb894163bfa9ba7a92efd292c6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 69/90] fix: IS NOT NULL of a SELECT DISTINCT's value is not
 EXISTS

---
 sql_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 110ff56..cca5fc3 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -140,7 +140,7 @@ def to_not_null(operand):
     inner = operand
     while isinstance(inner, ParseResults) and len(inner.tokens) == 1:
         inner = inner.tokens[0]
-    if isinstance(inner, dict) and set(inner.keys()) & {"select", "from", *is_set_op}:
+    if isinstance(inner, dict) and set(inner.keys()) & {"select", "select_distinct", "from", *is_set_op}:
         # EXISTS OF A QUERY ASKS FOR ITS ROWS, NOT FOR ITS VALUE
         return Call("not", [Call("missing", operand, {})], {})
     return Call("exists", operand, {})
-- 
2.43.0


From cdd3922acd1025f2f7e61e232a3a910f1c118d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 70/90] fix: a subquery in parentheses may begin a list of
 arguments

---
 sql_parsing/sql_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/sql_parser.py b/sql_parsing/sql_parser.py
index 9d0558c..60de06f 100644
--- a/sql_parsing/sql_parser.py
+++ b/sql_parsing/sql_parser.py
@@ -231,7 +231,10 @@ def parser(literal_string, ident, sqlserver=False):
         call_function = (
             ident("op")
             + LB
-            + Optional(Group(query) | delimited_list(Group(expr)))("params")
+            + Optional(
+                Group(query) + FollowedBy(RB).suppress()
+                | delimited_list(Group(expr))
+            )("params")
             + Optional(
                 (keyword("respect") | keyword("ignore"))("nulls")
                 + keyword("nulls").suppress()
-- 
2.43.0


From 526cc00f8edbfd16587c4e00a1f22f30a288aaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:08 +0000
Subject: [PATCH 71/90] fix: DROP of anything but a table is not classified as
 DROP TABLE

---
 scheduler/compile/keywords_lists.py | 2 +-
 scheduler/compile/parser.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/compile/keywords_lists.py b/scheduler/compile/keywords_lists.py
index 6163acd..e33b162 100644
--- a/scheduler/compile/keywords_lists.py
+++ b/scheduler/compile/keywords_lists.py
@@ -103,7 +103,7 @@ SUPPORTED_QUERY_TYPES = {
     "WITH": QueryType.SELECT,
     "CREATETABLE": QueryType.CREATE,
     "ALTERTABLE": QueryType.ALTER,
-    'DROP': QueryType.DROP
+    "DROPTABLE": QueryType.DROP
 }
 
 # all the keywords we care for - rest is ignored in assigning
diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 3e39bf0..be934f3 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -113,7 +113,7 @@ class Parser:  # pylint: disable=R0902
             )
             .position
         )
-        if tokens[index].normalized in ["CREATE", "ALTER"]:
+        if tokens[index].normalized in ["CREATE", "ALTER", "DROP"]:
             switch = tokens[index].normalized + tokens[index + 1].normalized
         else:
             switch = tokens[index].normalized
-- 
2.43.0


From 155c96e762702ca63e22ff012b35f690d45c3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:51 +0000
Subject: [PATCH 72/90] fix: comments between tokens do not hide tables,
 columns or the statement type

---
 scheduler/compile/parser.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index be934f3..6637671 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -104,19 +104,17 @@ class Parser:  # pylint: disable=R0902
         if not tokens:
             raise ValueError("Empty queries are not supported!")
 
-        index = (
-            0
+        first = (
+            tokens[0]
             if not tokens[0].is_left_parenthesis
-            else tokens[0]
-            .find_nearest_token(
+            else tokens[0].find_nearest_token(
                 value=False, value_attribute="is_left_parenthesis", direction="right"
             )
-            .position
         )
-        if tokens[index].normalized in ["CREATE", "ALTER", "DROP"]:
-            switch = tokens[index].normalized + tokens[index + 1].normalized
+        if first.normalized in ["CREATE", "ALTER", "DROP"]:
+            switch = first.normalized + first.next_token.normalized
         else:
-            switch = tokens[index].normalized
+            switch = first.normalized
         self._query_type = SUPPORTED_QUERY_TYPES.get(switch, "UNSUPPORTED")
         if self._query_type == "UNSUPPORTED":
             self._logger.error("Not supported query type: %s", self._raw_query)
@@ -139,6 +137,8 @@ class Parser:  # pylint: disable=R0902
         self._get_sqlparse_tokens(parsed)
         last_keyword = None
         combine_flag = False
+        previous_token = EmptyToken
+        comments = []
         for index, tok in enumerate(self.non_empty_tokens):
             # combine dot separated identifiers
             if self._is_token_part_of_complex_identifier(token=tok, index=index):
@@ -154,9 +154,17 @@ class Parser:  # pylint: disable=R0902
                 self._combine_qualified_names(index=index, token=token)
                 combine_flag = False
 
-            previous_token = tokens[-1] if index > 0 else EmptyToken
             token.previous_token = previous_token
-            previous_token.next_token = token if index > 0 else None
+            if token.is_comment:
+                # comments stand beside the statement: its tokens do not see them
+                comments.append(token)
+            else:
+                for comment in comments:
+                    comment.next_token = token
+                comments = []
+                if previous_token is not EmptyToken:
+                    previous_token.next_token = token
+                previous_token = token
 
             if token.is_left_parenthesis:
                 token.token_type = TokenType.PARENTHESIS
-- 
2.43.0


From e0b71cd51766f13ed13a441355a3a09fdeeb3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:13 +0000
Subject: [PATCH 73/90] fix: quoted names that look like keywords are names

---
 scheduler/compile/token.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scheduler/compile/token.py b/scheduler/compile/token.py
index bcf5720..717d8e7 100644
--- a/scheduler/compile/token.py
+++ b/scheduler/compile/token.py
@@ -30,6 +30,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
             self._set_default_values()
         else:
             self.value = tok.value.strip("`").strip('"')
+            self.is_quoted = tok.value.startswith("`")
             self.is_keyword = tok.is_keyword or (
                 tok.ttype.parent is Name and tok.ttype is not Name
             )
@@ -54,6 +55,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
 
     def _set_default_values(self):
         self.value = ""
+        self.is_quoted = False
         self.is_keyword = False
         self.is_name = False
         self.is_punctuation = False
@@ -105,8 +107,11 @@ class SQLToken:  # pylint: disable=R0902, R0904
     @property
     def normalized(self) -> str:
         """
-        Property returning uppercase value without end lines and spaces
+        Property returning uppercase value without end lines and spaces,
+        a quoted name keeps its quotes as it's never a keyword
         """
+        if self.is_quoted:
+            return f"`{self.value.upper()}`"
         return self.value.translate(str.maketrans("", "", " \n\t\r")).upper()
 
     @property
@@ -227,7 +232,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
             end_of_column = end_of_column.find_nearest_token(
                 [",", "FROM"], value_attribute="normalized", direction="right"
             )
-        return end_of_column.previous_token.normalized == self.normalized
+        return end_of_column.previous_token.value.upper() == self.value.upper()
 
     @property
     def is_in_with_columns(self) -> bool:
-- 
2.43.0


From 6f3937fa372629d181f30fa1a01ded0b473b61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:44 +0000
Subject: [PATCH 74/90] fix: names after a subquery belong to the clause the
 subquery is in

---
 scheduler/compile/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 6637671..dd4f313 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -139,6 +139,7 @@ class Parser:  # pylint: disable=R0902
         combine_flag = False
         previous_token = EmptyToken
         comments = []
+        outer_keywords = []
         for index, tok in enumerate(self.non_empty_tokens):
             # combine dot separated identifiers
             if self._is_token_part_of_complex_identifier(token=tok, index=index):
@@ -168,10 +169,13 @@ class Parser:  # pylint: disable=R0902
 
             if token.is_left_parenthesis:
                 token.token_type = TokenType.PARENTHESIS
+                outer_keywords.append(last_keyword)
                 self._determine_opening_parenthesis_type(token=token)
             elif token.is_right_parenthesis:
                 token.token_type = TokenType.PARENTHESIS
                 self._determine_closing_parenthesis_type(token=token)
+                # what follows belongs to the clause the parenthesis is in
+                last_keyword = outer_keywords.pop()
 
             last_keyword = self._determine_last_relevant_keyword(
                 token=token, last_keyword=last_keyword
-- 
2.43.0


From 498390fa5ae7139e19cce439047ae6c3e835592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:40 +0000
Subject: [PATCH 75/90] fix: compound keywords and WITH blocks of the statement
 analyser with comments and nesting

---
 scheduler/compile/parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index dd4f313..002a3fd 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -165,6 +165,11 @@ class Parser:  # pylint: disable=R0902
                 comments = []
                 if previous_token is not EmptyToken:
                     previous_token.next_token = token
+                if token.is_keyword and (
+                    previous_token.normalized + token.normalized in RELEVANT_KEYWORDS
+                ):
+                    # a compound keyword with a comment in it
+                    token.value = f"{previous_token.value} {token.value}"
                 previous_token = token
 
             if token.is_left_parenthesis:
@@ -466,9 +471,13 @@ class Parser:  # pylint: disable=R0902
                 while self._is_in_with_block and token.next_token:
                     if token.next_token.is_as_keyword:
                         self._handle_with_name_save(token=token, with_names=with_names)
-                        while token.next_token and not token.is_with_query_end:
+                        level = token.parenthesis_level
+                        while token.next_token and not (
+                            token.is_with_query_end
+                            and token.parenthesis_level == level
+                        ):
                             token = token.next_token
-                        if token.next_token.normalized in WITH_ENDING_KEYWORDS:
+                        if not token.next_token or token.next_token.normalized != ",":
                             # end of with block
                             self._is_in_with_block = False
                     else:
-- 
2.43.0


From dd5beb6f1928324d5fd88fae9f00a2313b90be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:39 +0000
Subject: [PATCH 76/90] fix: names in HAVING are columns, not tables

---
 scheduler/compile/keywords_lists.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/compile/keywords_lists.py b/scheduler/compile/keywords_lists.py
index e33b162..c5291f3 100644
--- a/scheduler/compile/keywords_lists.py
+++ b/scheduler/compile/keywords_lists.py
@@ -11,6 +11,7 @@ KEYWORDS_BEFORE_COLUMNS = {
     "WHERE",
     "ORDERBY",
     "GROUPBY",
+    "HAVING",
     "ON",
     "SET",
     "USING",
@@ -61,6 +62,7 @@ COLUMNS_SECTIONS = {
     "INTO": "insert",
     "SET": "update",
     "GROUPBY": "group_by",
+    "HAVING": "having",
 }
 
 
-- 
2.43.0


From 8174ed6fe4287f2a0e1a4bb3d2f6d2de878f10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:29 +0000
Subject: [PATCH 77/90] fix: constants with an alias are not columns

---
 scheduler/compile/token.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheduler/compile/token.py b/scheduler/compile/token.py
index 717d8e7..f73d490 100644
--- a/scheduler/compile/token.py
+++ b/scheduler/compile/token.py
@@ -178,6 +178,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
         return (
             self.is_keyword
             and self.normalized not in RELEVANT_KEYWORDS
+            and self.normalized not in ["NULL", "TRUE", "FALSE"]
             and self.previous_token.normalized in [",", "SELECT"]
             and self.next_token.normalized in [",", "AS"]
         )
-- 
2.43.0


From 705a3e50ebfa48bfcc2bc86f2d818e84b43b221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:29 +0000
Subject: [PATCH 78/90] fix: numbers with a signed exponent are one token

---
 scheduler/compile/parse/keywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/compile/parse/keywords.py b/scheduler/compile/parse/keywords.py
index d078d59..ec7fdfd 100644
--- a/scheduler/compile/parse/keywords.py
+++ b/scheduler/compile/parse/keywords.py
@@ -62,7 +62,7 @@ SQL_REGEX = {
         (r'(?<=\.)[A-ZÀ-Ü]\w*', tokens.Name),  # .'Name'
         (r'[A-ZÀ-Ü]\w*(?=\()', tokens.Name),  # side effect: change kw to func
         (r'-?0x[\dA-F]+', tokens.Number.Hexadecimal),
-        (r'-?\d+(\.\d+)?E-?\d+', tokens.Number.Float),
+        (r'-?\d+(\.\d+)?E[+-]?\d+', tokens.Number.Float),
         (r'(?![_A-ZÀ-Ü])-?(\d+(\.\d*)|\.\d+)(?![_A-ZÀ-Ü])',
          tokens.Number.Float),
         (r'(?![_A-ZÀ-Ü])-?\d+(?![_A-ZÀ-Ü])', tokens.Number.Integer),
-- 
2.43.0


From dc2b135804b1801f82c7008836457af4d110b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:00 +0000
Subject: [PATCH 79/90] fix: columns after operators, aliases without AS and
 products in the select list

---
 scheduler/compile/keywords_lists.py | 17 +++++++++++++++++
 scheduler/compile/token.py          | 22 +++++++++++++++++-----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/scheduler/compile/keywords_lists.py b/scheduler/compile/keywords_lists.py
index c5291f3..73d52e7 100644
--- a/scheduler/compile/keywords_lists.py
+++ b/scheduler/compile/keywords_lists.py
@@ -34,6 +34,23 @@ TABLE_ADJUSTMENT_KEYWORDS = {
     "TABLE",
 }
 
+# keywords that are or end an operand, so that an alias can follow them
+OPERAND_KEYWORDS = {"NULL", "NOTNULL", "TRUE", "FALSE", "END"}
+
+# what can follow the last column of a select without from
+SELECT_WITHOUT_FROM_ENDS = {
+    "",
+    ";",
+    ")",
+    "WHERE",
+    "HAVING",
+    "GROUPBY",
+    "ORDERBY",
+    "LIMIT",
+    "UNION",
+    "UNIONALL",
+}
+
 # next statement beginning after with statement
 WITH_ENDING_KEYWORDS = {"UPDATE", "SELECT", "DELETE", "REPLACE", "INSERT"}
 
diff --git a/scheduler/compile/token.py b/scheduler/compile/token.py
index f73d490..08754d9 100644
--- a/scheduler/compile/token.py
+++ b/scheduler/compile/token.py
@@ -3,12 +3,14 @@ Module contains internal SQLToken that creates linked list
 """
 from typing import Dict, List, Union
 from . import parse
-from .parse.tokens import Comment, Name, Number, Punctuation, Wildcard, Keyword
+from .parse.tokens import Comment, Name, Number, Operator, Punctuation, Wildcard, Keyword
 
 from .keywords_lists import (
     KEYWORDS_BEFORE_COLUMNS,
+    OPERAND_KEYWORDS,
     RELEVANT_KEYWORDS,
     QueryType,
+    SELECT_WITHOUT_FROM_ENDS,
     TABLE_ADJUSTMENT_KEYWORDS,
 )
 
@@ -36,6 +38,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
             )
             self.is_name = tok.ttype is Name
             self.is_punctuation = tok.ttype is Punctuation
+            self.is_operator = tok.ttype in Operator
             self.is_dot = str(tok) == "."
             self.is_wildcard = tok.ttype is Wildcard
             self.is_integer = tok.ttype is Number.Integer
@@ -59,6 +62,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
         self.is_keyword = False
         self.is_name = False
         self.is_punctuation = False
+        self.is_operator = False
         self.is_dot = False
         self.is_wildcard = False
         self.is_integer = False
@@ -190,9 +194,13 @@ class SQLToken:  # pylint: disable=R0902, R0904
         like: SELECT col <alias1>, col2 <alias2> from table
         """
         return (
-            self.next_token.normalized in [",", "FROM"]
-            and self.previous_token.normalized not in [",", ".", "(", "SELECT"]
-            and not self.previous_token.is_keyword
+            self.next_token.normalized in {",", "FROM"} | SELECT_WITHOUT_FROM_ENDS
+            and self.previous_token.normalized not in [",", ".", "(", "SELECT", "*"]
+            and not self.previous_token.is_operator
+            and (
+                not self.previous_token.is_keyword
+                or self.previous_token.normalized in OPERAND_KEYWORDS
+            )
             and (
                 self.last_keyword_normalized == "SELECT"
                 or self.previous_token.is_column_definition_end
@@ -306,7 +314,11 @@ class SQLToken:  # pylint: disable=R0902, R0904
         return (
             self.is_wildcard
             and self.last_keyword_normalized == "SELECT"
-            and not self.previous_token.is_left_parenthesis
+            and (
+                self.previous_token.normalized == ","
+                or self.previous_token.is_keyword
+                and self.previous_token.normalized not in OPERAND_KEYWORDS
+            )
         )
 
     @property
-- 
2.43.0


From cc587e1405289e32cc5717e2c6ab0843c4c32ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:53 +0000
Subject: [PATCH 80/90] fix: aliases of queries nested in functions and
 parentheses are not columns

---
 scheduler/compile/parser.py | 7 +++++++
 scheduler/compile/token.py  | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index 002a3fd..faef65c 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -140,6 +140,8 @@ class Parser:  # pylint: disable=R0902
         previous_token = EmptyToken
         comments = []
         outer_keywords = []
+        # does the innermost open parenthesis hold a query
+        in_query = [False]
         for index, tok in enumerate(self.non_empty_tokens):
             # combine dot separated identifiers
             if self._is_token_part_of_complex_identifier(token=tok, index=index):
@@ -175,17 +177,22 @@ class Parser:  # pylint: disable=R0902
             if token.is_left_parenthesis:
                 token.token_type = TokenType.PARENTHESIS
                 outer_keywords.append(last_keyword)
+                in_query.append(False)
                 self._determine_opening_parenthesis_type(token=token)
             elif token.is_right_parenthesis:
                 token.token_type = TokenType.PARENTHESIS
                 self._determine_closing_parenthesis_type(token=token)
                 # what follows belongs to the clause the parenthesis is in
                 last_keyword = outer_keywords.pop()
+                in_query.pop()
+            elif token.is_keyword and token.normalized == "SELECT":
+                in_query[-1] = True
 
             last_keyword = self._determine_last_relevant_keyword(
                 token=token, last_keyword=last_keyword
             )
             token.is_in_nested_function = self._is_in_nested_function
+            token.is_in_nested_query = in_query[-1]
             token.parenthesis_level = self._parenthesis_level
             tokens.append(token)
 
diff --git a/scheduler/compile/token.py b/scheduler/compile/token.py
index 08754d9..ea05e14 100644
--- a/scheduler/compile/token.py
+++ b/scheduler/compile/token.py
@@ -79,6 +79,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
 
     def _set_default_parenthesis_status(self):
         self.is_in_nested_function = False
+        self.is_in_nested_query = False
         self.parenthesis_level = 0
         self.is_subquery_start = False
         self.is_subquery_end = False
@@ -373,7 +374,7 @@ class SQLToken:  # pylint: disable=R0902, R0904
             self.last_keyword_normalized in KEYWORDS_BEFORE_COLUMNS
             and self.normalized not in ["DIV"]
             and self.is_alias_definition
-            and not self.is_in_nested_function
+            and (not self.is_in_nested_function or self.is_in_nested_query)
             or self.is_in_with_columns
         )
 
-- 
2.43.0


From 05de938dabfd32ef49435f659a781e817da940c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 81/90] fix: keywords are not taken for table aliases

---
 scheduler/compile/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index faef65c..ddc3a0a 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -442,7 +442,12 @@ class Parser:  # pylint: disable=R0902
         for token in self._not_parsed_tokens:
             if (
                 token.last_keyword_normalized in TABLE_ADJUSTMENT_KEYWORDS
-                and (token.is_name or (token.is_keyword and not token.is_as_keyword))
+                and (
+                    token.is_name
+                    or token.is_keyword
+                    and not token.is_as_keyword
+                    and token.normalized not in RELEVANT_KEYWORDS
+                )
                 and not token.next_token.is_as_keyword
             ):
                 if token.previous_token.is_as_keyword:
-- 
2.43.0


From 21d2b1d249c4f0c7dcdad02a8e0318dacfe71c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:46 +0000
Subject: [PATCH 82/90] fix: quotes within strings, comments and names do not
 break the statement analyser

---
 scheduler/compile/parser.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/scheduler/compile/parser.py b/scheduler/compile/parser.py
index ddc3a0a..7c44313 100644
--- a/scheduler/compile/parser.py
+++ b/scheduler/compile/parser.py
@@ -971,24 +971,27 @@ class Parser:  # pylint: disable=R0902
         if self._raw_query == "":
             return ""
 
-        # python re does not have variable length look back/forward
-        # so we need to replace all the " (double quote) for a
-        # temporary placeholder as we DO NOT want to replace those
-        # in the strings as this is something that user provided
-        def replace_quotes_in_string(match):
-            return re.sub('"', "<!!__QUOTE__!!>", match.group())
-
-        def replace_back_quotes_in_string(match):
-            return re.sub("<!!__QUOTE__!!>", '"', match.group())
-
         # unify quoting in queries, replace double quotes to backticks
         # it's best to keep the quotes as they can have keywords
         # or digits at the beginning so we only strip them in SQLToken
         # as double quotes are not properly handled in sqlparse
-        query = re.sub(r"'.*?'", replace_quotes_in_string, self._raw_query)
-        query = re.sub(r'"([^`]+?)"', r"`\1`", query)
-        query = re.sub(r'"([^`]+?)"\."([^`]+?)"', r"`\1`.`\2`", query)
-        query = re.sub(r"'.*?'", replace_back_quotes_in_string, query)
+        # strings, comments and names that contain double quotes are kept:
+        # one pass over the query tells where each of them begins and ends
+        def unify_quotes(match):
+            name = match.group("name")
+            return f"`{name}`" if name else match.group()
+
+        query = re.sub(
+            r"'(?:[^'\\]|\\.|'')*'"
+            r"|`(?:[^`]|``)*`"
+            r"|(?:--|# )[^\r\n]*"
+            r"|/\*.*?\*/"
+            r'|"(?P<name>(?:[^"`\\]|\\.|"")+)"'
+            r'|"(?:[^"\\]|\\.|"")*"',
+            unify_quotes,
+            self._raw_query,
+            flags=re.DOTALL,
+        )
 
         return query
 
-- 
2.43.0


From 9d70f85985e26711d66090d72d5e3a501b2b0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 83/90] fix: indenting aligned does not fail on a CASE
 statement with blocks

---
 scheduler/compile/parse/filters/aligned_indent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/compile/parse/filters/aligned_indent.py b/scheduler/compile/parse/filters/aligned_indent.py
index 1fdd8c8..417cf97 100644
--- a/scheduler/compile/parse/filters/aligned_indent.py
+++ b/scheduler/compile/parse/filters/aligned_indent.py
@@ -70,6 +70,9 @@ class AlignedIndentFilter:
         cases = tlist.get_cases(skip_ws=True)
         # align the end as well
         end_token = tlist.token_next_by(m=(T.Keyword, 'END'))[1]
+        if end_token is None:
+            # the END of a block within a CASE statement of a routine
+            return
         cases.append((None, [end_token]))
 
         condition_width = [len(' '.join(map(str, cond))) if cond else 0
-- 
2.43.0


From 3bdf1763a89061aa606f73ac33d3ee1029c5bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 84/90] fix: statements written as Python or PHP code denote
 the statement

---
 scheduler/compile/parse/filters/output.py | 34 +++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/scheduler/compile/parse/filters/output.py b/scheduler/compile/parse/filters/output.py
index dd235ee..f908935 100644
--- a/scheduler/compile/parse/filters/output.py
+++ b/scheduler/compile/parse/filters/output.py
@@ -11,6 +11,7 @@ from scheduler.compile.parse import tokens as T
 
 class OutputFilter:
     varname_prefix = ''
+    special = ''
 
     def __init__(self, varname='compile'):
         self.varname = self.varname_prefix + varname
@@ -26,12 +27,22 @@ class OutputFilter:
         else:
             varname = self.varname
 
-        has_nl = len(str(stmt).strip().splitlines()) > 1
-        stmt.tokens = self._process(stmt.tokens, varname, has_nl)
+        tokens = list(stmt.flatten())
+        has_nl = any(t.is_whitespace and '\n' in t.value for t in tokens)
+        stmt.tokens = self._process(tokens, varname, has_nl)
         return stmt
 
+    def _escape(self, value):
+        """Writes what has a meaning within the quotes as an escape."""
+        value = value.replace('\\', '\\\\')
+        for char in self.special:
+            value = value.replace(char, '\\' + char)
+        return value.replace('\n', '\\n').replace('\r', '\\r')
+
 
 class OutputPythonFilter(OutputFilter):
+    special = "'"
+
     def _process(self, stream, varname, has_nl):
         # SQL query assignation to varname
         if self.count > 1:
@@ -59,15 +70,12 @@ class OutputPythonFilter(OutputFilter):
                 # Indentation
                 after_lb = token.value.split('\n', 1)[1]
                 if after_lb:
-                    yield sql.Token(T.Whitespace, after_lb)
+                    yield sql.Token(T.Whitespace,
+                                    self._escape(after_lb))
                 continue
 
-            # Token has escape chars
-            elif "'" in token.value:
-                token.value = token.value.replace("'", "\\'")
-
             # Put the token
-            yield sql.Token(T.Text, token.value)
+            yield sql.Token(T.Text, self._escape(token.value))
 
         # Close quote
         yield sql.Token(T.Text, "'")
@@ -77,6 +85,7 @@ class OutputPythonFilter(OutputFilter):
 
 class OutputPHPFilter(OutputFilter):
     varname_prefix = '$'
+    special = '"$'
 
     def _process(self, stream, varname, has_nl):
         # SQL query assignation to varname (quote header)
@@ -108,15 +117,12 @@ class OutputPHPFilter(OutputFilter):
                 # Indentation
                 after_lb = token.value.split('\n', 1)[1]
                 if after_lb:
-                    yield sql.Token(T.Whitespace, after_lb)
+                    yield sql.Token(T.Whitespace,
+                                    self._escape(after_lb))
                 continue
 
-            # Token has escape chars
-            elif '"' in token.value:
-                token.value = token.value.replace('"', '\\"')
-
             # Put the token
-            yield sql.Token(T.Text, token.value)
+            yield sql.Token(T.Text, self._escape(token.value))
 
         # Close quote
         yield sql.Token(T.Text, '"')
-- 
2.43.0


From 1c9c55ae5234b7ad6fb0616c9c2f799c7690b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 85/90] fix: strings are not truncated within an escaped
 character

---
 scheduler/compile/parse/filters/tokens.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scheduler/compile/parse/filters/tokens.py b/scheduler/compile/parse/filters/tokens.py
index 3ccfd28..ec6e225 100644
--- a/scheduler/compile/parse/filters/tokens.py
+++ b/scheduler/compile/parse/filters/tokens.py
@@ -5,8 +5,12 @@
 # This module is part of python-parse and is released under
 # the BSD License: https://opensource.org/licenses/BSD-3-Clause
 
+import re
+
 from scheduler.compile.parse import tokens as T
 
+ESCAPED = re.compile(r"''|\\.|.", re.DOTALL)
+
 
 class _CaseFilter:
     ttype = None
@@ -47,13 +51,9 @@ class TruncateStringFilter:
                 yield ttype, value
                 continue
 
-            if value[:2] == "''":
-                inner = value[2:-2]
-                quote = "''"
-            else:
-                inner = value[1:-1]
-                quote = "'"
-
+            inner = value[1:-1]
             if len(inner) > self.width:
-                value = ''.join((quote, inner[:self.width], self.char, quote))
+                # an escaped character is kept or left out as a whole
+                parts = ESCAPED.findall(inner[:self.width + 1])[:-1]
+                value = ''.join(("'", ''.join(parts), self.char, "'"))
             yield ttype, value
-- 
2.43.0


From bff20afdb99a876d48ac6db08535bc68d2c18449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 86/90] fix: a user variable of one letter is one token

---
 scheduler/compile/parse/keywords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/compile/parse/keywords.py b/scheduler/compile/parse/keywords.py
index ec7fdfd..b6b9a13 100644
--- a/scheduler/compile/parse/keywords.py
+++ b/scheduler/compile/parse/keywords.py
@@ -51,7 +51,7 @@ SQL_REGEX = {
         # are never functions, see issue183 and issue507
         (r'(CASE|IN|VALUES|USING|FROM|AS)\b', tokens.Keyword),
 
-        (r'(@|##|#)[A-ZÀ-Ü]\w+', tokens.Name),
+        (r'@[A-ZÀ-Ü]\w*|(##|#)[A-ZÀ-Ü]\w+', tokens.Name),
 
         # see issue #39
         # Spaces around period `schema . name` are valid identifier
-- 
2.43.0


From 529e6623b32f3d81d36a51809046d936bbeb553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 87/90] fix: stripping whitespace does not join words

---
 scheduler/compile/parse/filters/others.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scheduler/compile/parse/filters/others.py b/scheduler/compile/parse/filters/others.py
index 905f67e..00d1020 100644
--- a/scheduler/compile/parse/filters/others.py
+++ b/scheduler/compile/parse/filters/others.py
@@ -88,10 +88,13 @@ class StripWhitespaceFilter:
         return self._stripws_default(tlist)
 
     def _stripws_parenthesis(self, tlist):
-        while tlist.tokens[1].is_whitespace:
-            tlist.tokens.pop(1)
-        while tlist.tokens[-2].is_whitespace:
-            tlist.tokens.pop(-2)
+        # grouping may have put a parenthesis into the group next to it
+        if tlist.tokens[0].match(T.Punctuation, '('):
+            while tlist.tokens[1].is_whitespace:
+                tlist.tokens.pop(1)
+        if tlist.tokens[-1].match(T.Punctuation, ')'):
+            while len(tlist.tokens) > 1 and tlist.tokens[-2].is_whitespace:
+                tlist.tokens.pop(-2)
         self._stripws_default(tlist)
 
     def process(self, stmt, depth=0):
-- 
2.43.0


From ee84bb8a14801304e5bf1f3fadd97563152bebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 88/90] fix: formatting leaves blanks and line breaks within
 quotes

---
 scheduler/compile/parse/filters/others.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/scheduler/compile/parse/filters/others.py b/scheduler/compile/parse/filters/others.py
index 00d1020..89ce1e0 100644
--- a/scheduler/compile/parse/filters/others.py
+++ b/scheduler/compile/parse/filters/others.py
@@ -9,7 +9,8 @@ import re
 
 from scheduler.compile.parse import sql
 from scheduler.compile.parse import tokens as T
-from scheduler.compile.parse.utils import split_unquoted_newlines
+
+LINE_BREAK = re.compile(r'\r\n|\r|\n')
 
 
 class StripCommentsFilter:
@@ -136,5 +137,18 @@ class SpacesAroundOperatorsFilter:
 class SerializerUnicode:
     @staticmethod
     def process(stmt):
-        lines = split_unquoted_newlines(stmt)
-        return '\n'.join(line.rstrip() for line in lines)
+        lines, quoted = [''], 0
+        for token in stmt.flatten():
+            if token.ttype in T.Literal or token.ttype in T.Name:
+                # the blanks and line breaks within quotes stay
+                lines[-1] += token.value
+                quoted = len(lines[-1])
+                continue
+            for i, part in enumerate(LINE_BREAK.split(token.value)):
+                if i:
+                    lines[-1] = lines[-1][:quoted] + lines[-1][quoted:].rstrip()
+                    lines.append('')
+                    quoted = 0
+                lines[-1] += part
+        lines[-1] = lines[-1][:quoted] + lines[-1][quoted:].rstrip()
+        return '\n'.join(lines)
-- 
2.43.0


From dbbd7d676dd30d18f8f91ba6710e2a110f2c8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:26 +0000
Subject: [PATCH 89/90] fix: stripping a comment next to the beginning of a
 group does not join words

---
 scheduler/compile/parse/filters/others.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/scheduler/compile/parse/filters/others.py b/scheduler/compile/parse/filters/others.py
index 89ce1e0..9b99fa7 100644
--- a/scheduler/compile/parse/filters/others.py
+++ b/scheduler/compile/parse/filters/others.py
@@ -43,8 +43,10 @@ class StripCommentsFilter:
                     or prev_.is_whitespace or prev_.match(T.Punctuation, '(')
                     or next_.is_whitespace or next_.match(T.Punctuation, ')')):
                 # Insert a whitespace to ensure the following SQL produces
-                # a valid SQL (see #425).
-                if prev_ is not None and not prev_.match(T.Punctuation, '('):
+                # a valid SQL (see #425). What stands before the first token
+                # of a group is in another group.
+                if (tlist.parent is not None if prev_ is None
+                        else not prev_.match(T.Punctuation, '(')):
                     tlist.tokens.insert(tidx, _get_insert_token(token))
                 tlist.tokens.remove(token)
             else:
@@ -67,7 +69,8 @@ class StripWhitespaceFilter:
     @staticmethod
     def _stripws_default(tlist):
         last_was_ws = False
-        is_first_char = True
+        # what stands before the first token of a group is in another group
+        is_first_char = tlist.parent is None
         for token in tlist.tokens:
             if token.is_whitespace:
                 token.value = '' if last_was_ws or is_first_char else ' '
@@ -101,8 +104,15 @@ class StripWhitespaceFilter:
     def process(self, stmt, depth=0):
         [self.process(sgroup, depth + 1) for sgroup in stmt.get_sublists()]
         self._stripws(stmt)
-        if depth == 0 and stmt.tokens and stmt.tokens[-1].is_whitespace:
-            stmt.tokens.pop(-1)
+        if depth == 0:
+            if stmt.tokens and stmt.tokens[-1].is_whitespace:
+                stmt.tokens.pop(-1)
+            # blanks on both sides of the beginning of a group
+            last_was_ws = False
+            for token in stmt.flatten():
+                if token.is_whitespace and last_was_ws:
+                    token.value = ''
+                last_was_ws = token.is_whitespace
         return stmt
 
 
-- 
2.43.0


From b3dff8e5b3187bbe4229c60e2d3b440dc3aae428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:18 +0000
Subject: [PATCH 90/90] fix: keywords of several words are recognised whatever
 blanks are between them

---
 scheduler/compile/parse/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/compile/parse/sql.py b/scheduler/compile/parse/sql.py
index cf51be2..335d70f 100644
--- a/scheduler/compile/parse/sql.py
+++ b/scheduler/compile/parse/sql.py
@@ -55,7 +55,9 @@ class Token:
         self.is_group = False
         self.is_keyword = ttype in T.Keyword
         self.is_whitespace = self.ttype in T.Whitespace
-        self.normalized = value.upper() if self.is_keyword else value
+        # the words of a keyword may stand any number of blanks apart
+        self.normalized = (' '.join(value.upper().split())
+                           if self.is_keyword else value)
 
     def __str__(self):
         return self.value
-- 
2.43.0

