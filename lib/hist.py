"""Histories of client statements: abstract schema and statements, their SQL, execution through the proxy,
independent reading of what the backend stores, and the projection to the values of EulerSem.tla."""
import decimal
import json
import os
import random

import world as W

NULL = -1000000
UNKNOWN = -1
HKEYS = [[787659527, 1023624989], [1000003, 998244353], [15485863, 32452843]]


class Col:
    def __init__(self, name, typ, n=None, enc=None, notnull=False):
        self.name, self.typ, self.n, self.enc, self.notnull = name, typ, n, enc, notnull

    @property
    def text(self):
        return self.typ in ('varchar', 'char')

    @property
    def comps(self):
        if not self.enc:
            return ['plain']
        c = ['symmetric'] if self.text else ['order-preserving', 'symmetric']
        if self.enc.get('fuzzy'):
            c.append('fuzzy')
        if self.enc.get('arithmetic'):
            c.append('arithmetic')
        if self.enc.get('sm4'):
            c.append('sm4')
        return c

    def ddl(self):
        t = self.typ + ('(%d)' % self.n if self.n else '')
        return '%s %s%s' % (self.name, t, ' not null' if self.notnull else '')


class Source:
    """a data source as a request names it"""
    def __init__(self, db='points', host='127.0.0.1', port=3306, user='root', password='root'):
        self.db, self.host, self.port, self.user, self.password = db, host, port, user, password

    @property
    def info(self):
        return {'host': self.host, 'port': self.port, 'user': self.user, 'password': self.password}

    @property
    def key(self):
        return (self.host, int(self.port), self.db)

    def row(self):
        return [str(x) for x in (self.host, self.port, self.db, self.user, self.password)]


class Table:
    src = None               # where it is, None: the history's only data source

    def __init__(self, name, cols, pk=(), fks=()):
        self.name, self.cols, self.pk, self.fks = name, cols, list(pk), list(fks)
        self.uniques = []

    def idx(self, name):
        return [c.name for c in self.cols].index(name)

    @property
    def encrypted(self):
        return {c.name: dict(c.enc) for c in self.cols if c.enc}

    def ddl(self, ine=False):
        parts = [c.ddl() for c in self.cols]
        if self.pk:
            parts.append('primary key (%s)' % ', '.join(self.cols[i].name for i in self.pk))
        for name, cols, rt, rcols in self.fks:
            parts.append('constraint %s foreign key (%s) references %s(%s)' % (
                name, ', '.join(self.cols[i].name for i in cols), rt.name, ', '.join(rt.cols[i].name for i in rcols)))
        return 'create table %s%s (%s)' % ('if not exists ' if ine else '', self.name, ', '.join(parts))


class As:
    """a value written as a literal of another type"""
    def __init__(self, v, text):
        self.v, self.text = v, text


def lit(v):
    if isinstance(v, As):
        return v.text
    if v is None:
        return 'null'
    if isinstance(v, str):
        return "'" + v.replace('\\', '\\\\').replace("'", "''") + "'"
    if isinstance(v, float):
        s = repr(v)
        if 'e' in s or 'E' in s:
            s = format(v, '.12f').rstrip('0')
            s += '0' if s.endswith('.') else ''
        return s
    return str(v)


class Q:
    """raw value, converted to its rank at the end"""
    def __init__(self, v):
        self.v = v


OPS = {'eq': '=', 'lt': '<', 'lte': '<=', 'gt': '>', 'gte': '>='}


def pred_sql(p, names, rnd=None):
    """SQL text of a predicate; every connective in parentheses unless rnd decides precedence does it"""
    k = p['k']
    if k == 'true':
        return ''
    if k == 'cmp':
        sp = ' ' if rnd is None or rnd.random() < .7 else ''
        return '%s%s%s%s%s' % (names[p['c'] - 1], sp, OPS[p['op']], sp, lit(p['v'].v))
    if k == 'col':
        return '%s %s %s' % (names[p['c'] - 1], OPS[p['op']], names[p['d'] - 1])
    if k == 'like':
        return '%s like %s' % (names[p['c'] - 1], lit(p['raw']))
    parts = []
    for a in p['a']:
        s = pred_sql(a, names, rnd)
        need = a['k'] in ('and', 'or') and not (k == 'or' and a['k'] == 'and')
        if need or (a['k'] in ('and', 'or') and rnd is not None and rnd.random() < .5):
            s = '(%s)' % s
        parts.append(s)
    w = k if rnd is None or rnd.random() < .7 else k.upper()
    return (' %s ' % w).join(parts)


class History:
    """Runs statements on one database of a World and records the events."""
    def __init__(self, world, id, db='points', store=True):
        self.w, self.id, self.store = world, id, store
        self.home = self.src = Source(db)
        self.ids = []            # of encrypted queries
        self.track = False       # record the connections used
        self.tables, self.events, self.sqls, self.phys = [], [], [], {}
        self.values = []
        self.layouts = {}
        self.owner = {}          # (database, name) -> the Table last created under it
        self.only_seen = False  # judge only what the backend sees
        self.watch = None        # leak.Watch
        self.plan = None         # callable(number of the backend call, kind, sql) -> fault, for the next statement
        self.fired = []
        self.ddl = False         # faults strike the catalog connection too; the statement is a CREATE or DROP
        self.crashed = False
        self.calls = 0

    # ---- values
    def V(self, v):
        if isinstance(v, As):
            v = v.v
        if v is not None:
            self.values.append(v)
        return Q(v)

    # ---- statements
    def source(self, t):
        return t.src or self.home

    def at(self, t):
        """the next statement goes to the data source of t"""
        if t.src:
            self.src = t.src

    def send(self, sql, **kw):
        self.sqls.append((sql, {k: v for k, v in kw.items()}))
        n = len(self.w.server.log)
        self.fired = []
        if self.plan is not None:
            self.w.server.fault = self.faults(self.plan)
        with W.silence():
            try:
                r = self.w.query(self.src.db, sql, **self.src.info, **kw)
            except W.Crash:
                self.crashed = True
            if self.crashed:
                r = ('err', 'the proxy died', None)
        if self.plan is not None:
            self.w.server.fault, self.plan = None, None
        self.last = r
        self.last_log = self.w.server.log[n:]
        return r

    def faults(self, plan):
        count = [0]

        def fault(kind, conn, sql):
            if self.crashed:
                raise W.Crash
            cat = conn.key[2] == 'eulerdb_schema'
            if cat and not self.ddl:
                return None
            count[0] += 1
            self.calls = count[0]
            f = plan(count[0], kind, sql)
            if f is not None and self.ddl:
                refused = isinstance(f, Exception) and not cat and kind in ('execute', 'cursor')
                self.fired.append('fault' if refused else 'ddl')
                if f == 'crash':
                    self.crashed = True
                    raise W.Crash
                return f
            if f is not None:
                ddl = kind == 'execute' and str(sql).split()[0].lower() in ('create', 'drop', 'alter')
                lost = f in ('lost', 'lost-after')
                self.fired.append('commit' if lost and (kind == 'commit' or ddl) else 'fault')
            return f
        return fault

    def ev(self, op, r, **kw):
        e = {'op': op, 'status': r[0], 'seen': [], 'nsent': 0, 'store': [], 'err': r[1] if r[0] == 'err' else '',
             'fault': '' if not self.fired or op == 'restart' else
             'ddl' if 'ddl' in self.fired else 'commit' if 'commit' in self.fired else 'fault'}
        e.update(kw)
        if self.only_seen and op not in ('refuse', 'restart'):
            e = {k: e[k] for k in ('status', 'seen', 'nsent', 'store', 'err', 'fault')}
            e['op'] = 'free'
        if self.track and op not in ('restart', 'probe'):
            e['req'] = self.src.row()
            e['used'] = sorted(set((x['key'][0], str(x['key'][1]), x['key'][2], x['user'], x['password'])
                                   for x in self.last_log if x['kind'] == 'sql' and x['key'][2] != 'eulerdb_schema'))
        if self.watch is not None and op != 'restart':
            import leak
            self.phys.update(leak.physical(self.catalog()))
            sqls = [x['sql'] for x in self.last_log if x['kind'] == 'sql' and x['key'][2] != 'eulerdb_schema']
            e['nsent'] = len(sqls)
            e['seen'] = [dict(zip(('what', 'pos', 'cls'), x)) for x in self.watch.observe(sqls, self.phys)]
        if self.store and not self.only_seen and (op not in ('select',) or self.store == 'always'):
            e['store'] = self.snapshot()
        self.events.append(e)
        return e

    def tid(self, t):
        return self.tables.index(t) + 1

    def con(self, t):
        return {'notnull': [i + 1 for i, c in enumerate(t.cols) if c.notnull],
                'pk': [i + 1 for i in t.pk],
                'uniques': [[i + 1 for i in u] for u in t.uniques],
                'fks': [{'cols': [i + 1 for i in f[1]], 't': self.tid(f[2]), 'rcols': [i + 1 for i in f[3]]}
                        for f in t.fks]}

    def create(self, t, ine=False):
        self.at(t)
        if t not in self.tables:
            self.tables.append(t)
        self.owner[self.source(t).key, t.name] = t
        r = self.send(t.ddl(ine), encrypted_columns=t.encrypted)
        return self.ev('create', r, t=self.tid(t), con=self.con(t), ine=ine)

    def drop(self, t):
        self.at(t)
        return self.ev('drop', self.send('drop table ' + t.name), t=self.tid(t))

    def alter(self, t, clause, change):
        """change(t) changes the constraints of the abstract table; undone if the proxy refuses"""
        self.at(t)
        old = (list(t.pk), list(t.fks), list(t.uniques))
        nn = [c.notnull for c in t.cols]
        change(t)
        con = self.con(t)
        r = self.send('alter table %s %s' % (t.name, clause))
        if r[0] != 'ok':
            t.pk, t.fks, t.uniques = old
            for c, x in zip(t.cols, nn):
                c.notnull = x
        return self.ev('alter', r, t=self.tid(t), con=con)

    def insert(self, t, cols, rows, sql=None):
        self.at(t)
        sql = sql or 'insert into %s (%s) values %s' % (
            t.name, ', '.join(t.cols[i].name for i in cols),
            ', '.join('(%s)' % ', '.join(lit(v) for v in row) for row in rows))
        vals = [[self.V(v) for v in row] for row in rows]
        return self.ev('insert', self.send(sql), t=self.tid(t), cols=[i + 1 for i in cols], rows=vals)

    def bulk(self, t, cols, rows, chunk, upto=None):
        """CSV import; Bad(text) cells hold text the column cannot store; upto: chunks before a planted fault and its state"""
        self.at(t)
        import csv
        import pandas
        path = os.path.join(self.w.cwd, 'import.csv')
        with open(path, 'w', newline='', encoding='utf-8') as f:
            wr = csv.writer(f)
            for row in rows:
                wr.writerow([v.text if isinstance(v, Bad) else v if isinstance(v, str) else lit(v) for v in row])
        vals = [[v if isinstance(v, Bad) else self.V(v) for v in row] for row in rows]
        chunks = [vals[i:i + chunk] for i in range(0, len(vals), chunk)]
        pandas.CHUNK = chunk
        with open(path, encoding='utf-8') as f:
            text = f.read()
        r = self.send('-- import %r into %s (%s), %d rows a time' % (text, t.name, ', '.join(t.cols[i].name for i in cols), chunk),
                      batch_process={'table': t.name, 'columns': [t.cols[i].name for i in cols], 'input': path})
        pandas.CHUNK = None
        return self.ev('import', r, t=self.tid(t), cols=[i + 1 for i in cols], chunks=chunks,
                       upto=len(chunks) if upto is None or not upto[1]['done'] else upto[0])

    def update(self, t, sets, where, rnd=None):
        self.at(t)
        names = [c.name for c in t.cols]
        w = pred_sql(where, names, rnd)
        sql = 'update %s set %s' % (t.name, ', '.join('%s = %s' % (names[i], lit(v)) for i, v in sets))
        sql += ' where ' + w if w else ''
        sets = [{'c': i + 1, 'v': self.V(v)} for i, v in sets]
        return self.ev('update', self.send(sql), t=self.tid(t), sets=sets, where=where)

    def delete(self, t, where, rnd=None):
        self.at(t)
        w = pred_sql(where, [c.name for c in t.cols], rnd)
        sql = 'delete from %s' % t.name + (' where ' + w if w else '')
        return self.ev('delete', self.send(sql), t=self.tid(t), where=where)

    def refuse(self, sql, **kw):
        return self.ev('refuse', self.send(sql, **kw))

    def perhaps(self, statement):
        """a statement that may be refused, but not do anything else"""
        e = statement()
        if e['status'] == 'err':
            e['op'] = 'refuse'
        return e

    def free(self, sql, **kw):
        """a statement outside the specified classes: it may be refused or not, its effect is not predicted"""
        r = self.send(sql, **kw)
        store, self.store = self.store, False
        e = self.ev('free', r)
        self.store = store
        return e

    def restart(self):
        self.sqls.append(('-- restart', {}))
        self.crashed = False
        self.w.boot()
        return self.ev('restart', ('ok', None, None))

    def select(self, sql, q, cols, hdr, **kw):
        """cols: the Col of every result column (None for counts); q: abstract query"""
        r = self.send(sql, **kw)
        e = self.ev('select', r, q=q, res=[], aggs=[], names=[], hdr=[])
        if r[0] == 'ok' and e['op'] == 'select':
            e['raw'] = (r[1], cols)
            if r[1] and hdr:
                e['hdr'] = list(hdr)
                e['names'] = [str(x) for x in (r[2] or [[]])[0]]
        return e

    # ---- queries encrypted for a client that asks the backend itself
    def encrypt(self, sql, q, compare=True):
        """returns the id handed out and the statement"""
        self.last_log = []
        self.sqls.append(('-- encrypt ' + sql, {}))
        ctl, d = self.w.ctl, {'db': self.src.db, 'sql': sql}
        with W.silence():
            r = ctl.ControllerEncryptSql2(dict(d)).do_convert()
            stmts, sent = [r['encrypt_sql']], []
            ok = 'id' in r
            if ok and compare:
                stmts.append(ctl.ControllerEncryptSql1(dict(d)).do_convert()['encrypt_sql'])
                stmts.append(ctl.ControllerEncryptSql(self.w.info(self.src.db, sql, **self.src.info)).do_convert()['encrypt_sql'])
                n = len(self.w.server.log)
                self.w.query(self.src.db, sql, **self.src.info)
                sent = [x['sql'] for x in self.w.server.log[n:] if x['kind'] == 'sql' and x['key'][2] != 'eulerdb_schema']
        self.ev('encrypt', ('ok' if ok else 'err', '' if ok else 'no id', None), q=q, id=self.ticket(r.get('id')),
                stmts=stmts if compare else [], sent=sent)
        return r.get('id'), r['encrypt_sql']

    def ticket(self, id):
        if id not in self.ids:
            self.ids.append(id)
        return self.ids.index(id) + 1

    def raw(self, stmt):
        """the client asks the backend; rows as they come out of JSON"""
        c = self.w.server.connect(host=self.src.host, port=self.src.port, user=self.src.user, password=self.src.password,
                                  db=self.src.db)
        cu = c.cursor()
        try:
            cu.execute(stmt)
            rows = cu.fetchall() if cu.rows is not None else []
            c.commit()
        finally:
            c.close()
        return json.loads(json.dumps([[int(v) if isinstance(v, decimal.Decimal) and v == int(v) else float(v)
                                       if isinstance(v, decimal.Decimal) else v for v in row] for row in rows]))

    def fetch(self, id, stmt):
        self.last_log = []
        self.sqls.append(('-- fetch %s' % id, {}))
        rows = self.raw(stmt)
        self.ev('fetch', ('ok', None, None), id=self.ticket(id))
        return rows

    def decrypt(self, id, rows, q, cols, hdr):
        self.last_log = []
        self.sqls.append(('-- decrypt %s' % id, {}))
        with W.silence():
            r = self.w.ctl.ControllerDecrypt({'data': {'rows': rows}, 'query_id': id}).do_convert()
        ok = 'data' in r and r.get('query_id') == id
        e = self.ev('decrypt', ('ok' if ok else 'err', '' if ok else repr(r)[:200], None), id=self.ticket(id), q=q, res=[], aggs=[],
                    names=[], hdr=[])
        if ok:
            e['raw'] = ([tuple(x) for x in r['data']['rows']], cols)
            if hdr:
                e['hdr'] = list(hdr)
                e['names'] = [str(x) for x in r['data']['columns']]
        return e

    # ---- what the backend holds, decrypted without the proxy's statement machinery
    # ---- what the proxy believes: how it would rewrite statements on every table, without asking the backend
    def rewritten(self, t):
        """number of the physical layout the proxy has for t, 0 if it does not know t"""
        sqls = ['select * from ' + t.name]
        for c in t.cols:
            v = "'abc'" if c.text else '5'
            sqls.append('select %s from %s where %s = %s' % (c.name, t.name, c.name, v))
            if not c.text:
                sqls.append('select %s from %s where %s < %s order by %s' % (c.name, t.name, c.name, v, c.name))
            if c.enc and c.enc.get('fuzzy'):
                sqls.append("select %s from %s where %s like '%%abcd%%'" % (c.name, t.name, c.name))
        out = []
        with W.silence():
            for s in sqls:
                r = self.w.ctl.ControllerEncryptSql1({'db': self.source(t).db, 'sql': s}).do_convert()
                out.append(None if r['encrypt_sql'] == s else r['encrypt_sql'])
        if out[0] is None or self.owner.get((self.source(t).key, t.name)) is not t:
            return 0
        return self.layouts.setdefault(tuple(out), len(self.layouts) + 1)

    def probe(self):
        lay = [self.rewritten(t) for t in self.tables]
        self.sqls.append(('-- probe', {}))
        return self.ev('probe', ('ok', None, None), lay=lay)

    def accounts(self):
        return [{'host': h, 'port': str(p), 'user': u, 'password': w, 'dbs': sorted(dbs)}
                for (h, p, u), (w, dbs) in sorted((self.w.server.accounts or {}).items())]

    def catalog(self, src=None):
        return read_catalog(self.w.server, (src or self.home).db)

    def snapshot(self):
        out = []
        for t in self.tables:
            src = self.source(t)
            cat = self.catalog(src)
            here = t.name in cat and self.owner.get((src.key, t.name), t) is t
            e = {'t': self.tid(t), 'exists': here, 'cat': here, 'rows': []}
            if here:
                e['rows'] = stored_rows(self.w, src.key, t, cat[t.name])
                if e['rows'] is None:
                    e['exists'], e['rows'] = False, []
            out.append(e)
        return out

    # ---- projection
    def finish(self):
        nums = sorted(set(float(v) if isinstance(v, float) else v for v in self.values if not isinstance(v, str)))
        # equal numbers of different types are one value
        uniq = []
        for v in nums:
            if not uniq or uniq[-1] != v:
                uniq.append(v)
        strs = sorted(set(v for v in self.values if isinstance(v, str)))
        self.num_rank = {v: i + 1 for i, v in enumerate(uniq)}
        self.str_rank = {v: len(uniq) + i + 1 for i, v in enumerate(strs)}
        self.uniq = uniq
        chars = {}

        def code(ch):
            return chars.setdefault(ch, len(chars) + 1)

        def conv(x, cols=None):
            if isinstance(x, Bad):
                return UNKNOWN
            if isinstance(x, RawCell):
                return UNKNOWN if x.v == '?' and x.col is None else self.rank(x.v, x.col)
            if isinstance(x, Q):
                return self.rank(x.v, None)
            if isinstance(x, dict):
                y = {k: conv(v) for k, v in x.items() if k not in ('raw', 'err')}
                if x.get('k') == 'like':
                    y['p'] = [0 if ch == '%' else code(ch) for ch in x['raw']]
                return y
            if isinstance(x, (list, tuple)):
                return [conv(v) for v in x]
            return x
        evs = []
        for e in self.events:
            if 'raw' in e:
                rows, cols = e['raw']
                if e['q']['aggs']:
                    e['aggs'] = self.agg_obs(rows, e['q']['aggs'], cols)
                else:
                    e['res'] = [[self.rank(v, c) for v, c in zip(row, cols)] + [UNKNOWN] * (len(row) != len(cols))
                                for row in rows]
            if e['op'] == 'probe':
                e['lay'] = e['lay'] + [0] * (len(self.tables) - len(e['lay']))
            evs.append(conv(e))
        text = [[] for _ in uniq] + [[code(ch) for ch in s] for s in strs]
        return {'id': self.id, 'accounts': self.accounts(), 'tables': [{'name': t.name, 'width': len(t.cols), 'comps': [len(c.comps) for c in t.cols]}
                                          for t in self.tables],
                'text': text, 'num': [big(int(v)) if v == int(v) else big(0) for v in uniq] + [big(0) for _ in strs],
                'ev': evs}

    def rank(self, v, col):
        """rank of an observed or written value; col tells the type the observation must have"""
        if v is None:
            return NULL
        if isinstance(v, bool):
            return UNKNOWN
        if col is None:
            return self.str_rank.get(v, UNKNOWN) if isinstance(v, str) else self.num_rank.get(v, UNKNOWN)
        if col.text:
            return self.str_rank.get(v, UNKNOWN) if isinstance(v, str) else UNKNOWN
        if col.typ == 'int':
            return self.num_rank.get(v, UNKNOWN) if isinstance(v, int) else UNKNOWN
        if not isinstance(v, (int, float)):
            return UNKNOWN
        return self.near(v)

    def near(self, v):
        import bisect
        i = bisect.bisect_left(self.uniq, v)
        for j in (i - 1, i):
            if 0 <= j < len(self.uniq) and abs(self.uniq[j] - v) <= max(2e-12, 2e-15 * abs(v)):
                return j + 1
        return UNKNOWN

    def agg_obs(self, rows, aggs, cols):
        if len(rows) != 1 or len(rows[0]) != len(aggs):
            return []
        out = []
        for v, a, c in zip(rows[0], aggs, cols):
            o = {'null': v is None, 'v': UNKNOWN, 'b': big(0)}
            if v is not None:
                if a['f'] == 'count':
                    o['v'] = v if type(v) is int and 0 <= v < 10 ** 6 else UNKNOWN
                elif a['f'] in ('max', 'min'):
                    o['v'] = self.rank(v, c)
                elif a['f'] == 'sum':
                    # an impossible value, so that it is never right
                    o['b'] = big(v) if type(v) is int else big(10 ** 60)
                elif a['f'] == 'avg':
                    x = decimal.Decimal(repr(v)) * 10 ** 4 if type(v) in (int, float) else None
                    o['b'] = big(int(x)) if x is not None and x == int(x) else big(10 ** 60)
            out.append(o)
        return out


def big(v):
    s = (v > 0) - (v < 0)
    v, m = abs(v), []
    while v:
        m.append(v % 10000)
        v //= 10000
    return {'s': s, 'm': m}


def read_catalog(server, db):
    """{logical table: (physical table, {column: info})} from the committed rows of p_db_meta"""
    meta = server.dbs[('127.0.0.1', 3306, 'eulerdb_schema')].tables['p_db_meta']
    out = {}
    for row in meta.rows:
        r = dict(zip([c.name for c in meta.cols], row))
        if r['database_name'] == db:
            phys, cols = out.setdefault(r['table_name'], (r['table_anonymous'], {}))
            try:
                cols.update(json.loads(r['col_info']))
            except ValueError:
                cols['?'] = {}
    return out


class Bad(Q):
    """text of a file that is no value of its column"""
    def __init__(self, text):
        self.v, self.text = None, text


class Undecodable(Exception):
    pass


def decode_cell(enc, comp, value, info, typ, sym=None):
    """the plaintext one companion stands for"""
    if value is None:
        return None
    text = typ in ('varchar', 'char')
    if comp == 'symmetric':
        v = enc.AESCipher(info['key']).decrypt(value)
    elif comp == 'order-preserving':
        v = enc.OPECipher(info['key']).decrypt(int(value))
    elif comp == 'arithmetic':
        v = enc.HomomorphicCipher(info['homomorphic_key']).decrypt(str(value))
    elif comp == 'sm4':
        v = enc.SM4CipherBytes(info['sm4_key']).decrypt(value)
    elif comp == 'fuzzy':
        # one-way: it must be the ciphertext of what the symmetric companion holds
        if sym is None or enc.FuzzyCipher(info['key']).encrypt(str(sym)) != value:
            raise Undecodable()
        v = sym
    else:
        raise Undecodable()
    if text:
        return v
    return enc.decode(v, typ) if isinstance(v, str) else enc.decode(str(v), typ)


def stored_rows(w, key, t, cat):
    import importlib
    enc = importlib.import_module('scheduler.crypto.encrypt')
    phys, infos = cat
    tab = w.server.dbs[key].tables.get(phys)
    if tab is None:
        return None
    names = [c.name for c in tab.cols]
    rows = []
    for row in tab.rows:
        r = dict(zip(names, row))
        out = []
        for c in t.cols:
            info = infos.get(c.name)
            cell = []
            if info is None:
                cell = [RawCell('?', None)]
            elif not c.enc:
                cell = [RawCell(r.get(c.name, '?'), c)]
            else:
                enc_cols = info.get('enc-cols', {})
                sym = None
                try:
                    s = r.get(enc_cols.get('symmetric'))
                    sym = None if s is None else enc.AESCipher(info['key']).decrypt(s)
                except Exception:                  # noqa: BLE001
                    pass
                for comp in c.comps:
                    try:
                        cell.append(RawCell(decode_cell(enc, comp, r[enc_cols[comp]], info, c.typ, sym), c))
                    except Exception:              # noqa: BLE001
                        cell.append(RawCell('?', None))
            out.append(cell)
        rows.append(out)
    return rows


class RawCell(Q):
    def __init__(self, v, col):
        self.v, self.col = v, col
