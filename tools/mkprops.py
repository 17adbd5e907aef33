"""Source of /verif/properties.jsonl (kept as Python for readability)."""
import json
RH = "scheduler/handers/rewrite_hander.py"
CL = "scheduler/handers/clause/"
EX = "scheduler/backend/executors/remote_executor.py"
CTX = "scheduler/backend/execution_context.py"
MD = "scheduler/schema/metadata.py"
DH = "scheduler/handers/decrypt_handler.py"
TB = "scheduler/handers/table.py"
EN = "scheduler/crypto/encrypt.py"
OPE = "scheduler/crypto/ope/ope.py"
PD = "dbutils/pooled_db.py"
SD = "dbutils/steady_db.py"
NOTEST = "No test of the proxy runs without a live MySQL server and HTTP service; the 24 stable tests only parse fixed SQL strings. "
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": m, "where": w} for m, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("P01", "Filtered reads through the proxy equal plaintext reads",
  "After any history of accepted statements, a single-table SELECT (column list or *, DISTINCT, LIMIT) whose WHERE combines =, <, <=, >, >= with AND, OR and parentheses over plaintext and encrypted INT, VARCHAR, CHAR, FLOAT and DOUBLE columns returns exactly the rows and values, with the column names in order, that a plaintext database with the same history would return. "
  "A result set never contains undecrypted text, a value of another column or row, or a row that does not satisfy the predicate.",
  ["histories", "inputs"], "all table layouts, all statement histories, all predicate trees and constants of the supported classes",
  NOTEST + "The quantifier ranges over predicates, values and histories.",
  [CL + "sql_where.py", CL + "sql_select.py", RH, DH, EX, EN],
  [("predicate translation to ciphertext columns", CL + "sql_where.py: SQLWhere.rewrite"),
   ("projection to the symmetric companion", CL + "sql_select.py: SQLSelect.rewrite"),
   ("result decryption by column and state", DH)],
  [("catalog", "logical column -> physical ciphertext columns, key, type", MD)],
  ["ControllerDatabase.do_query", "backend statement log"])
p("P02", "Writes change exactly the addressed rows, in every companion column",
  "After any history of accepted INSERT, UPDATE ... SET ... WHERE and DELETE ... WHERE statements, the rows stored at the backend are exactly the rows a plaintext database would hold, and every ciphertext companion of a stored value (equality, order, substring, arithmetic) encodes that same value. "
  "Columns omitted from an INSERT or set to NULL are NULL in every companion, and columns not named in an UPDATE keep their ciphertext.",
  ["histories", "inputs"], "all histories of inserts, updates and deletes over all column types and layouts, all constants",
  NOTEST + "Companions can drift apart in a way only a later query on another companion reveals.",
  [CL + "sql_values.py", CL + "sql_set.py", CL + "sql_columns.py", CL + "sql_where.py", EX],
  [("one encrypted value per companion", CL + "sql_values.py: SQLValues.rewrite"), ("update of all companions", CL + "sql_set.py: SQLSet.rewrite"),
   ("column list expansion", CL + "sql_columns.py")],
  [("companions", "physical columns holding one logical value", MD)], ["backend tables after every statement"])
p("P03", "MIN, MAX, COUNT(*) and ORDER BY follow the plaintext order",
  "MIN and MAX of an encrypted or plaintext numeric column, COUNT(*), and ORDER BY (ASC or DESC, one or several columns, optionally with LIMIT) over encrypted or plaintext numeric columns return what a plaintext database would return for the same rows and predicate. "
  "An empty selection gives NULL for MIN and MAX and 0 for COUNT(*).",
  ["histories", "inputs"], "all rows (negative, equal, extreme values), all predicates, all sort directions and limits",
  NOTEST + "Order mistakes show only for particular value pairs, directions and column combinations.",
  [CL + "function.py", CL + "sql_select.py", OPE, DH], [("order-preserving companion", CL + "function.py: OrderBy.rewrite"), ("MIN/MAX on the order companion", MD + ": FUNC_CIPHERS")],
  [], ["ControllerDatabase.do_query"])
p("P04", "Homomorphic SUM and AVG equal plaintext SUM and AVG",
  "SUM and AVG of an INT column declared arithmetic, alone or together with other aggregates and with any supported WHERE clause, return the exact sum and the average (rounded to four decimals) of the selected rows for any mixture of negative, zero and positive values, after any history of inserts, updates and deletes, and however many aggregates were computed on the same connection before. "
  "An empty selection yields NULL.",
  ["histories", "inputs"], "all multisets of values, all predicates, all orders of aggregate queries on reused connections, proxy started with or without existing tables",
  NOTEST + "The aggregate is a multi-statement protocol over session variables of a pooled connection.",
  [MD, EX, EN, DH], [("running product modulo n^2 in session variables", MD + ": set_sum_feature"), ("Paillier decryption of 'sum,count'", EN + ": HomomorphicCipher.decrypt")],
  [("@sum*/@rownr/@numTotalFeature", "session variables on the pooled connection", MD)], ["ControllerDatabase.do_query"])
p("P05", "Substring search matches exactly the rows that contain the pieces",
  "For an encrypted column declared fuzzy that holds letters and digits of any script (or texts every three adjacent characters of which include one that is neither), WHERE col LIKE p, for a pattern p made of pieces of at least three such characters separated, preceded or followed by %, returns exactly the rows the same LIKE returns on the plaintext (case-sensitive comparison). "
  "Pieces shorter than three characters are refused with an error and never answered with a wrong row set.",
  ["inputs", "histories"], "all stored strings of letters and digits, all patterns, all positions, repeated pieces, NULLs",
  NOTEST + "Matching is over concatenated encrypted trigrams; alignment mistakes need particular strings.",
  [EN, CL + "sql_where.py"], [("trigram tokens", EN + ": FuzzyCipher.encrypt"), ("pattern encryption piecewise", CL + "sql_where.py")], [], ["ControllerDatabase.do_query"])
p("P06", "Joins and derived tables return what plaintext would",
  "INNER/LEFT/RIGHT JOIN ... ON equality and comma joins with an equality WHERE between columns that are both plaintext or both encrypted under the same key, and SELECT of columns from a derived table (SELECT ... WHERE ...) AS alias, return exactly the rows and decrypted values a plaintext database would return, unmatched sides being NULL. "
  "Each returned column is decrypted with the key of the table and column it was selected from.",
  ["histories", "inputs"], "all pairs of table contents, join kinds, column choices, aliases and limits",
  NOTEST + "Which key decrypts which column depends on the pairing of tables and columns.",
  [CL + "sql_from.py", CL + "sql_select.py", CL + "sql_where.py", CL + "utils.py", DH, RH],
  [("join rewriting", CL + "sql_from.py: SQLFrom.join"), ("owner table resolution", CL + "utils.py: get_origin_table / get_nest_table")], [], ["ControllerDatabase.do_query"])
p("P07", "No plaintext of protected data reaches the backend",
  "No statement sent to the backend - on success, on refusal, on error or during bulk import - contains the plaintext of a value written to or compared with an encrypted column, nor the logical name of a table or of an encrypted column; only the order-preserving code may stand for an ordered value. "
  "A statement that cannot be translated completely (for example IN, BETWEEN, <>, NOT, a function or ORDER/LIKE without the needed companion on an encrypted column, or INSERT without a column list) is refused with an error before anything is sent.",
  ["inputs", "histories"], "all statements the parser accepts over tables with encrypted columns, supported or not, all constants",
  NOTEST + "A leak is invisible in results; it needs the backend's statement log over unsupported as well as supported statements.",
  [RH, CL + "sql_where.py", CL + "sql_values.py", CL + "sql_set.py", CL + "function.py", CL + "anonymous_table.py", TB, EX],
  [("every clause is rewritten before formatting", RH + ": rewrite_query"), ("anonymous table names", CL + "anonymous_table.py"), ("random physical column names", TB)],
  [], ["backend statement log"])
p("P08", "The catalog survives a proxy restart",
  "Restarting the proxy at any point between statements changes nothing: every table created and not dropped remains readable and writable with the same columns, keys, companions and physical tables, and dropped tables stay gone. "
  "What the proxy believes in memory and what a freshly started proxy loads are always the same.",
  ["histories", "crash_points"], "all histories of CREATE, DROP, re-CREATE and data statements in several databases with restarts at every position",
  NOTEST + "Needs persistent state across process lifetimes.",
  [MD, TB], [("one catalog row per column", MD + ": update_db_meta / load_delta"), ("delete on DROP", MD + ": delete_delta")],
  [("p_db_meta", "durable catalog", MD), ("Delta.meta", "in-memory catalog", MD)], ["p_db_meta rows", "queries after restart"])
p("P09", "Catalog and backend agree after failed or repeated DDL",
  "A CREATE TABLE that the backend rejects, or that names a table that already exists, leaves catalog and existing tables exactly as they were and is reported as an error (IF NOT EXISTS on an existing table leaves it untouched); a DROP TABLE that the backend rejects keeps the table usable. "
  "If the proxy dies between any two backend calls of a DDL statement, then after restart every table is either fully usable or can be dropped and created again, and no other table is affected.",
  ["fault_sequences", "crash_points", "histories"], "all DDL histories with a backend rejection or a proxy crash at every backend call",
  NOTEST + "Needs failure injection at particular calls and inspection after restart.",
  [EX, TB, MD], [("catalog update before backend CREATE, undone on error", EX + ": call"), ("catalog delete after backend DROP", EX + ": call")],
  [], ["p_db_meta rows", "backend tables", "client outcome"])
p("P10", "Backend failures are reported and leave no partial effect",
  "When the backend rejects a statement or the connection is lost at any point, the client gets an error unless the statement took effect exactly once; a statement reported as failed has no effect on stored data, now or later, and a statement reported as successful has its whole effect, committed. (When the connection is lost while committing, or while completing a DDL statement, the failed statement may have its whole effect, never a part of it.) "
  "No failure exhausts or poisons the connection pool: the next statement is served normally.",
  ["fault_sequences", "histories"], "a rejection or connection loss at every backend call of every statement kind, any number of failures before the next statement",
  NOTEST + "Needs fault injection at every backend call and a committed-state oracle.",
  [EX, PD, SD], [("execute/commit sequence", EX + ": call"), ("rollback on return to the pool", PD + ": cache"), ("failover", SD)],
  [], ["client outcome", "committed backend rows", "open connections"], None)
p("P11", "Concurrent requests do not influence each other's results",
  "Requests processed concurrently give each client the result it would get in some sequential order of the requests: a request is rewritten, aggregated and decrypted with its own statement, table, keys and session variables whatever other requests do in between.",
  ["schedules"], "all interleavings of two or more requests (reads, aggregates, writes, DDL on other tables) at every call into the proxy's shared state or the backend",
  NOTEST + "The outcome depends on the interleaving of request threads.",
  [MD, EX, RH, CTX, PD], [("per-request Rewriter and connection", EX + ": RemoteExecutor"), ("catalog singleton shared by all request threads", MD + ": Delta")],
  [("Delta", "shared catalog", MD), ("connection_pool", "shared pools", EX)], ["per-request results under a controlled scheduler"])
p("P12", "Deferred decryption uses the context of its own query",
  "Every successful encrypt-only request (encrypt_sql2) returns an id that is different from every other id handed out by the process, and decrypt_data with that id decrypts rows with exactly that query's columns, keys and table, whatever queries were encrypted before, after or at the same time. "
  "The statement returned by the encrypt-only endpoints is the statement the query endpoint would send (SUM and AVG, which the query endpoint computes in several statements, excepted), and an id that was never issued yields no data.",
  ["schedules", "histories"], "all interleavings and orders of encrypt-only and decrypt requests, including within one clock tick",
  NOTEST + "Collisions need several requests within one clock tick.",
  [CTX, EX, DH, "controller/rewriter.py"], [("id -> context map", CTX + ": id_sql_map")], [("id_sql_map", "contexts of pending queries", CTX)], ["encrypt_sql2 / decrypt_data results"])
p("P13", "Databases and credentials are isolated from each other",
  "A statement for one database is executed on a connection opened to exactly the host, port, database, user and password given in the request, and reads, writes or drops nothing in another database even when table names, or concatenations of the connection parameters, coincide. "
  "A request whose credentials the backend would refuse is refused, no matter which connections are pooled. (Accounts changed or revoked at the backend while connections are pooled are not covered.)",
  ["histories", "configurations"], "all sequences of requests over several databases with equal table names, and over colliding or wrong connection parameters",
  NOTEST + "Needs several databases with colliding names and credentials.",
  [EX, MD], [("pool per connection parameters", EX + ": connect_db"), ("catalog per database", MD)], [("connection_pool", "pools by connection parameters", EX)], ["backend log: connection parameters of every statement"])
p("P14", "Bulk import equals inserting the rows one by one",
  "Importing a CSV file stores, in every companion column, exactly what single-row INSERT statements of the same values would have stored, for every layout of plaintext and encrypted columns and any order of the listed columns. "
  "An import reported as successful has stored all rows, and one that fails has stored no partial chunk.",
  ["inputs", "fault_sequences"], "all column orders, types and companions; failures at every row",
  NOTEST + "Bulk import has no test at all.",
  [EX], [("batch_insert", EX + ": batch_insert")], [], ["committed backend rows", "later queries"])
p("P15", "Declared constraints and capacities hold on the encrypted table",
  "NOT NULL, PRIMARY KEY and FOREIGN KEY declared at creation, and keys added or dropped by ALTER TABLE, accept and reject exactly the rows they would accept and reject on plaintext, where key columns are plaintext or symmetrically encrypted under one key. "
  "Every value the declared type admits fits its physical columns: VARCHAR(n)/CHAR(n) any string of n ASCII characters, INT any 32-bit integer.",
  ["inputs", "histories"], "all column types and lengths, key combinations, and histories of conflicting rows",
  NOTEST + "Capacity arithmetic and key translation depend on every length and layout.",
  [TB, MD, CL + "anonymous_table.py"], [("ciphertext length computation", MD + ": get_type_and_len"), ("constraint translation", TB + ": get_constraint_key")], [], ["backend DDL", "accept/reject of rows"])
p("P16", "HTTP endpoints deliver the controller's outcome unchanged",
  "A POST to /query, /query_jar, /jdbc_query, /create_table, /encrypt_sql, /encrypt_sql1, /encrypt_sql2, /decrypt_data or a GET of the schema endpoint performs the request exactly once against the data source it names and returns its rows, column names and column order as JSON; ciphertext=true returns the stored ciphertext undecrypted. "
  "A failing request is answered with an error status or error body, never with a success body, and does not affect other requests. (encrypt_sql1 and encrypt_sql2 deliberately answer a statement they cannot encrypt with the statement itself, without table and id.)",
  ["inputs", "histories"], "all endpoints, valid and failing requests, in any order and concurrently",
  NOTEST + "No test starts the service.",
  ["handler.py", "service.py", "controller/rewriter.py"], [("handlers", "handler.py"), ("routing", "service.py")], [], ["HTTP responses"])
p("C01", "Symmetric ciphers are faithful, deterministic and key-separated",
  "For every key and every text without NUL characters, decrypting an encryption returns the text; equal texts have equal ciphertexts and different texts different ciphertexts under one key, and the ciphertext of a text of eight or more characters never contains it. "
  "Two instances made from the same key interoperate; different keys give different ciphertexts of every text that is not empty.",
  ["inputs"], "all strings (any length around block boundaries, any Unicode, bytes for the byte ciphers), all keys",
  "No crypto test runs; equality search and joins rely on determinism and injectivity for every string.",
  [EN], [("AES-256-ECB with zero padding", EN + ": AESCipher"), ("SM4", EN + ": SM4CipherBytes"), ("PKCS-padded AES on bytes", EN + ": AESCipherBytes")], [], ["encrypt / decrypt"])
p("C02", "Order-preserving encryption is strictly monotone and invertible",
  "For every key and every pair of input and output ranges with at least as many outputs as inputs, encryption is strictly increasing, deterministic, stays in the output range, and is inverted by decryption. "
  "Values outside a range and output-range integers that encrypt nothing are rejected with an error, and the default ranges accept every signed 64-bit integer.",
  ["inputs", "configurations"], "all keys, ranges (singletons, negative, shifted, equal sized) and values",
  "Untested; monotonicity is a statement about all pairs of values.",
  [OPE, "scheduler/crypto/ope/hgd.py", "scheduler/crypto/ope/stat.py"], [("lazy-sampled recursive bisection", OPE + ": encrypt_recursive / decrypt_recursive")], [], ["OPE.encrypt / decrypt"])
p("C03", "Numeric encoding preserves value and order",
  "Encoding a FLOAT or DOUBLE for storage is monotone, gives the same code however the number was written (integer, decimal, text), and decoding returns the value to within 1e-12 absolute for magnitudes up to 1e3 and to the precision of a double (a few units in the last place) for magnitudes up to 1e15, for negative as for positive values; INT and text encodings are the identity. "
  "Beyond 1e15 DOUBLE encoding stays monotone up to 1e65.",
  ["inputs"], "all finite values in the supported magnitude, both signs, neighbouring values",
  "Untested; sign, truncation and range-boundary mistakes need particular values.",
  [EN], [("fixed point by 10^12 with range stretching", EN + ": encode / decode / stretch / inverse_stretch")], [], ["encode / decode", "query results"])
p("C04", "Additive homomorphism",
  "For every Paillier key pair and integers whose sum stays below a third of the modulus in magnitude, decrypting the product of their ciphertexts modulo n^2 gives their sum, in the plain, 'sum,count' (average rounded to four decimals) and list ',SUM' / ',AVG' (sum, exact quotient) forms. "
  "Encryption is randomised: encrypting one value twice gives different ciphertexts that decrypt to the same value.",
  ["inputs"], "all multisets of integers of either sign, all key pairs and result forms",
  "Untested; sign wrap-around and result forms need particular values.",
  [EN], [("Paillier", EN + ": HomomorphicCipher")], [], ["encrypt / decrypt"])
p("C05", "Fuzzy ciphertexts preserve containment",
  "For every key and every text and search piece of the same kind (both alphanumeric with a piece of at least three characters, or neither and at least two), the encrypted piece occurs in the encrypted text exactly when the piece occurs in the text, for two instances made from the same key.",
  ["inputs"], "all pairs of text and piece: repetitive alphabets, overlaps, multi-byte characters, pieces that nearly occur",
  "Untested; substring search on encrypted columns is wrong for whichever text breaks it.",
  [EN], [("overlapping encrypted n-grams", EN + ": FuzzyCipher")], [], ["encrypt"])
p("D01", "A pooled connection has one owner and the pool respects its limits",
  "Under every interleaving, a connection handed out as dedicated is used by exactly one holder until it is returned, the number of connections in use never exceeds maxconnections, idle connections never exceed maxcached, and a shared connection is only shared up to when maxshared is reached, never while it is in a transaction. "
  "When the limit is reached a non-blocking pool raises an error; returning a connection twice, or after the pool was closed, does not make it available twice or corrupt the counts.",
  ["schedules", "configurations"], "all interleavings of connection / close / begin / pool close in several threads, all pool configurations, connect failures",
  "No pool test runs (the bundled one needs MySQL); ownership is a property of interleavings.",
  [PD], [("counters and caches under one condition", PD + ": PooledDB")], [("_connections, _idle_cache, _shared_cache", "pool accounting", PD)], ["pool API calls and DB-API calls under a controlled scheduler"])
p("D02", "Connections are handed over clean and alive",
  "A dedicated connection obtained from the pool, and a shared one whose last holder returned it, carries nothing from its previous user: no open transaction, no uncommitted change, no stale read snapshot; with ping enabled it is alive when handed out, a dead idle connection being replaced. "
  "Such a connection returned inside a transaction is rolled back, and a returned handle can no longer be used.",
  ["histories", "schedules", "fault_sequences"], "all histories of use, return, reuse and connection loss; all reset and ping settings",
  "No pool test runs; contamination needs particular reuse histories and faults.",
  [PD, SD], [("reset on return", PD + ": cache; " + SD + ": _reset"), ("ping on fetch", SD + ": _ping_check")], [], ["DB-API calls seen by the driver"])
p("D03", "Blocked connection requests are always served",
  "In a blocking pool every waiting request eventually obtains a connection once enough connections are returned (those held by the requests served before it included): no wake-up is lost, no waiter stays blocked when every connection has been returned, and failures to connect or to reset do not consume capacity.",
  ["schedules", "fault_sequences"], "all interleavings of waiters and returners, all pool configurations, failing connects, pings and rollbacks",
  "No pool test runs; lost wake-ups are schedule dependent.",
  [PD], [("condition wait / notify", PD + ": _wait_lock, cache, unshare")], [], ["threads blocked at quiescence under a controlled scheduler"])
p("D04", "Failover never replays or hides work of a transaction",
  "Inside a transaction opened with begin() a lost connection always surfaces as the original error, nothing is re-executed, and the work of that transaction is never continued or committed by later statements, which start outside it; outside transactions a statement that failed because the connection was lost is tried again at most twice, never after it succeeded, and its result or, if no attempt succeeds, the error of an attempt is returned. "
  "An error that is not a connection failure is never retried on another connection or swallowed, unless the connection was being replaced already; a commit, rollback, begin or cancel reaches the driver exactly once and its failure is reported.",
  ["fault_sequences", "histories"], "all sequences of cursor / execute / commit / rollback / ping with a failure of each class at every driver call",
  "No test; needs driver failures at particular calls in particular states.",
  [SD], [("tough cursor and methods", SD + ": _cursor, _get_tough_method, commit, rollback")], [("_transaction, _usage", "connection state", SD)], ["DB-API calls seen by the driver"])
p("D05", "Usage limits and session preparation are honoured",
  "A connection successfully executes at most maxusage statements (a running transaction is finished first) before it is replaced, never in the middle of a transaction, and every new underlying connection runs the setsession commands before any client statement. "
  "Replaced and closed underlying connections are closed exactly once, so none leaks.",
  ["histories", "fault_sequences"], "all usage sequences, transaction boundaries and failures during replacement",
  "No test; needs counting over long histories with faults.",
  [SD], [("usage counter", SD + ": _cursor, tough_method"), ("session preparation", SD + ": _setsession")], [], ["DB-API calls seen by the driver"])
p("S01", "Formatting a parsed statement preserves its meaning",
  "For every statement of the supported grammar (SELECT with joins, nesting, predicates, grouping, ordering, limits; INSERT; UPDATE; DELETE), parsing yields the syntax tree the statement denotes - operator precedence, parentheses, literals and names included - and formatting that tree yields SQL that parses back to the same tree. "
  "Letter case of keywords, white space, redundant parentheses and quoting of names do not change the tree. (Outside the grammar: joins without JOIN ... ON / USING / CROSS JOIN, tables in parentheses, WHERE without FROM, operators the parser rejects. A minus stands between spaces. Comparison with the NULL literal is read as IS NULL, a + b + c as a sum of three; numbers are compared by value.)",
  ["inputs"], "all statements of the grammar up to any nesting; all literals, including quotes and non-ASCII",
  "The tests check about twenty fixed strings; precedence and quoting mistakes need other combinations.",
  ["sql_parsing/sql_parser.py", "sql_parsing/formatting.py", "sql_parsing/utils.py", "sql_parsing/keywords.py"], [("grammar", "sql_parsing/sql_parser.py"), ("formatter", "sql_parsing/formatting.py")], [], ["parse_mysql / format"])
p("S02", "Statements are classified and their parts extracted correctly",
  "The statement type, the tables and the columns the analyser (Parser.query_type, .tables, .columns) reports are those of the statement, for every SELECT, INSERT, REPLACE, UPDATE, DELETE, WITH, CREATE TABLE, ALTER TABLE and DROP TABLE statement, "
  "whatever the case, spacing, comments, name quoting or the content of string literals (in single quotes: the analyser reads double quotes as quoting names). "
  "Tables are those read or written, without the names a WITH gives; columns are those named in expressions and as targets (not in the values of INSERT rows, nor in ALTER TABLE), without select-list aliases, "
  "and a qualifier that is a table alias is replaced by its table. "
  "Statement kinds the proxy does not support (TRUNCATE, CREATE INDEX, DROP VIEW, SET, SHOW, ...) are rejected with ValueError, not misclassified.",
  ["inputs"], "all statements of the supported grammar with all layouts, comments and literals",
  "Three trivial tests exist; misclassification needs unusual layouts or literals that look like keywords.",
  ["scheduler/compile/parser.py", "scheduler/compile/token.py", "scheduler/compile/keywords_lists.py"], [("token classification", "scheduler/compile/parser.py")], [], ["Parser.query_type / tables / columns"])
p("S03", "Splitting and tokenising SQL text is lossless",
  "Splitting a script yields its statements in order, cutting exactly at the semicolons that end a statement (never inside literals, comments, quoted names, parentheses, or BEGIN ... END bodies of CREATE statements with their nested IF, CASE, WHILE, LOOP and REPEAT blocks), and concatenating the tokens of any text, valid or not, gives back the text unchanged. (Line comments are '-- ' and '# '.)",
  ["inputs"], "all token sequences of the splitter's alphabet; all texts",
  "Not tested at all; the splitter is a state machine with nesting counters.",
  ["scheduler/compile/parse/engine/statement_splitter.py", "scheduler/compile/parse/lexer.py", "scheduler/compile/parse/__init__.py"], [("splitter", "scheduler/compile/parse/engine/statement_splitter.py")], [], ["split / parse"])
p("S04", "Formatting SQL text changes nothing but what its options ask for",
  "Formatting a text of SQL statements with any combination of options (keyword_case, identifier_case, strip_comments, strip_whitespace, reindent and reindent_aligned with their indent options, use_space_around_operators, truncate_strings, output_format python or php) succeeds and yields the same tokens in the same order: "
  "literals, numbers, quoted names, operators and comments are unchanged (line breaks and blanks within quotes too), no two words are joined and no token is swallowed by a comment. Only what an option asks for differs, and that it does: keywords or names (quoted with backticks too) have the case asked for, comments are gone, "
  "single-quoted literals longer than the width are cut without tearing an escape apart, blanks are single, operators have blanks around them, FROM, WHERE, HAVING and UNION of an indented statement begin a line; the program text of an output format denotes the formatted statements. "
  "(Line comments are '-- ' and '# '; letters whose case mapping is not one to one are left out; right_margin is not implemented.)",
  ["inputs"], "all statements and scripts of the grammars with all layouts, comments and literals, times all combinations of options",
  "Not tested at all; the formatter rewrites a grouped token tree in place with filters that interact.",
  ["scheduler/compile/parse/__init__.py", "scheduler/compile/parse/formatter.py", "scheduler/compile/parse/filters", "scheduler/compile/parse/engine/grouping.py"], [("filters", "scheduler/compile/parse/filters"), ("format", "scheduler/compile/parse/__init__.py")], [], ["scheduler.compile.parse.format"])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), [x['id'] for x in P])
for x in P:
    assert len(x['title']) <= 80, x['id']
