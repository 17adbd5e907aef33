"""P16 the HTTP endpoints deliver the controller's outcome"""
import random
import threading

import httpworld
import p10
import p12
import sem
import tlc
import par

H = sem.H
G = sem.G
W = sem.W


class WebHistory(H.History):
    """History whose encrypt-only requests go through HTTP"""
    def encrypt(self, sql, q, compare=True):
        self.last_log = []
        self.sqls.append(('-- encrypt ' + sql, {}))
        w, i = self.w, self.w.info(self.src.db, sql, **self.src.info)
        st, r = w.http('POST', '/encrypt_sql2', {'db': self.src.db, 'sql': sql})
        ok = st == 200 and isinstance(r, dict) and 'id' in r
        stmts, sent = [], []
        if ok and compare:
            bodies = [r, w.http('POST', '/encrypt_sql1', {'db': self.src.db, 'sql': sql})[1],
                      w.http('POST', '/encrypt_sql', dict(i, backend='mysql'))[1],
                      w.http('POST', '/encrypt_sql', {'sqlQuery': sql, 'jdbcDataSourceId': w.source_id(i)})[1]]
            stmts = [str((b or {}).get('encrypt_sql')) for b in bodies]
            n = len(w.server.log)
            with W.silence():
                w.query(self.src.db, sql, **self.src.info)
            sent = [x['sql'] for x in w.server.log[n:] if x['kind'] == 'sql' and x['key'][2] == self.src.db]
        self.ev('encrypt', ('ok' if ok else 'err', '' if ok else repr((st, r)), None), q=q, id=self.ticket((r or {}).get('id')),
                stmts=stmts, sent=sent)
        return (r['id'], r['encrypt_sql']) if ok else (None, None)

    def decrypt(self, id, rows, q, cols, hdr):
        self.last_log = []
        self.sqls.append(('-- decrypt %s' % id, {}))
        st, r = self.w.http('POST', '/decrypt_data', {'data': {'rows': rows}, 'query_id': id})
        ok = st == 200 and 'data' in r and r.get('query_id') == id
        e = self.ev('decrypt', ('ok' if ok else 'err', '' if ok else repr(r)[:200], None), id=self.ticket(id), q=q, res=[], aggs=[],
                    names=[], hdr=[])
        if ok:
            e['raw'] = ([tuple(x) for x in r['data']['rows']], cols)
            if hdr:
                e['hdr'] = list(hdr)
                e['names'] = [str(x) for x in r['data']['columns']]
        return e

    def create_web(self, t):
        """the create_table endpoint: always IF NOT EXISTS, no constraints"""
        self.at(t)
        self.owner[self.source(t).key, t.name] = t
        n = len(self.w.server.log)
        self.sqls.append(('-- /create_table ' + t.ddl(), {}))
        i = self.w.info(self.src.db, **self.src.info)
        cols = [{'name': c.name, 'type': c.typ, 'length': str(c.n or 0), 'encryption': 'true' if c.enc else 'false',
                 'fuzzy': 'true' if c.enc and c.enc.get('fuzzy') else 'false', 'token': c.enc['key'] if c.enc else ''} for c in t.cols]
        st, r = self.w.http('POST', '/create_table', {'selectedJdbcDataSource': {'value': self.w.source_id(i)}, 'dataSource': cols,
                                                     'count': len(cols), 'table_name': t.name})
        self.last_log, self.fired = self.w.server.log[n:], []
        return self.ev('create', ('ok' if (st, r) == (200, {}) else 'err', repr((st, r)), None), t=self.tid(t), con=self.con(t), ine=True)

    def hopeless(self, rnd, t, get=False):
        """a request nobody can perform"""
        w = self.w
        sql = 'insert into %s (%s) values (null)' % (t.name, t.cols[0].name)
        i = w.info(self.src.db, sql, **self.src.info)
        gone = rnd.choice(['host', 'db', 'query'])
        pg = 77 if w.rnd is None else w.datasource('jdbc:postgresql://127.0.0.1:5432/points', 'root', 'root')
        odd = 78 if w.rnd is None else w.datasource('jdbc:mysql://127.0.0.1/points', 'root', 'root')
        no = rnd.choice([pg, pg, odd, 99, '', 'x'])
        cols = [{'name': 'a', 'type': 'int', 'length': '0', 'encryption': 'false', 'fuzzy': 'false', 'token': ''}]
        path, body = rnd.choice([
            ('/jdbc_query', {'sqlQuery': sql, 'jdbcDataSourceId': no, 'ciphertext': False}),
            ('/jdbc_query', {'create_table': 'create table fresh (a int)', 'selectedJdbcDataSource': {'value': no}, 'encrypted_columns': {}}),
            ('/create_table', {'selectedJdbcDataSource': {'value': no}, 'dataSource': cols, 'count': 1, 'table_name': 'fresh'}),
            ('/encrypt_sql', {'sqlQuery': sql, 'jdbcDataSourceId': no}),
            ('/query', {k: v for k, v in i.items() if k != gone}),
            ('/query', dict(i, port=1)), ('/query', {}), ('/query', None), ('/jdbc_query', None), ('/decrypt_data', {}),
            ('/encrypt_sql2', {'db': self.src.db}), ('/create_table', dict({'dataSource': cols, 'count': 2, 'table_name': 'fresh'},
                                                     selectedJdbcDataSource={'value': w.source_id(i)}))])
        method = 'POST'
        if get or rnd.random() < .15:
            method, path, body = 'GET', '/jdbc_query/schema/%s' % rnd.choice(['99', '', 'x', '1x']), None
        self.sqls.append(('-- %s %r' % (path, body), {}))
        n = len(w.server.log)
        st, r = w.http(method, path, body)
        self.last_log, self.fired = w.server.log[n:], []
        bad = st != 200 or (isinstance(r, dict) and r.get('error'))
        return self.ev('refuse', ('err' if bad else 'ok', repr((st, r)), None))

    def schema(self):
        """what the schema endpoint says: tables, their columns, which of them are encrypted"""
        self.last_log = []
        self.sqls.append(('-- schema', {}))
        st, r = self.w.http('GET', '/jdbc_query/schema/%d' % self.w.source_id(self.w.info(self.src.db, **self.src.info)))
        ok = st == 200 and isinstance(r, list)
        here = [t for t in self.tables if self.source(t).key == self.src.key]
        want = {H.json.dumps([t.name] + [[c.name + (' *' if c.enc else ''), c.typ.upper() if c.typ != 'int' else 'INTEGER']
                                         for c in t.cols]): self.tid(t) for t in here}
        got = []
        for x in r if ok else []:
            if x:
                got.append(want.get(H.json.dumps([x['name']] + [[c['name'], c['javaType']] for c in x['columns']]), 0))
        return self.ev('schema', ('ok' if ok else 'err', repr((st, r)), None), got=got, here=[self.tid(t) for t in here])

    def cipher(self, sql, q, cols):
        """ciphertext=true: every cell must be a stored ciphertext of the right value"""
        cat = self.catalog(self.src)
        t = self.tables[q['from']['t'] - 1]
        e = self.select(sql, q, cols, [], ciphertext=True)
        if e['status'] == 'ok' and t.name in cat and 'raw' in e:
            import importlib
            enc = importlib.import_module('scheduler.crypto.encrypt')
            rows, cols = e['raw']
            out = []
            for row in rows:
                new = []
                for v, c in zip(row, cols):
                    if c is not None and c.enc and v is not None:
                        v = self.decoded(enc, v, c, cat[t.name][1][c.name])
                    new.append(v)
                out.append(tuple(new) + tuple(row[len(cols):]))
            e['raw'] = (out, cols)
        return e

    @staticmethod
    def decoded(enc, v, c, info):
        for comp in ('order-preserving', 'arithmetic') if isinstance(v, (int, float)) else ('symmetric', 'sm4'):
            if comp in c.comps:
                try:
                    return H.decode_cell(enc, comp, v, info, c.typ)
                except Exception:              # noqa: BLE001
                    pass
        return ()


def plain_table(g, rnd, name):
    t = p10.table(g, rnd, name)
    for c in t.cols:
        if c.enc:
            c.enc = {'fuzzy': c.enc['fuzzy'] and c.text, 'key': c.enc['key']}
    return t


def step(h, g, rnd, tabs, state):
    t = rnd.choice(tabs)
    ari = any(c.enc and c.enc.get('arithmetic') for c in t.cols)
    h.at(t)
    x = rnd.random()
    if x < .1 or t not in state['made']:
        state['made'].append(t)
        if t.web and rnd.random() < .6:
            h.create_web(t)
        else:
            h.create(t, ine=rnd.random() < .3)
    elif x < .3:
        if state.get('faults') and rnd.random() < .3:
            # a backend failure in the middle of a request
            h.plan = p10.plan(rnd)
            p10.statement(h, g, rnd, t)
        else:
            g.insert(h, t)
    elif x < .36:
        g.update(h, t)
    elif x < .4:
        g.delete(h, t)
    elif x < .6:
        h.select(*g.query(h, t, order=.3))
    elif x < .68:
        h.select(*g.aggquery(h, t, funcs=('count', 'max', 'min', 'sum', 'avg') if ari else ('count', 'max', 'min')))
    elif x < .76:
        sql, q, cols, hdr = g.query(h, t, order=.2) if rnd.random() < .8 else g.aggquery(h, t)
        h.cipher(sql, q, cols)
    elif x < .82:
        sql, q, cols, hdr = g.query(h, t, order=.2)
        id, stmt = h.encrypt(sql, q, compare=rnd.random() < .6)
        if id:
            rows = h.fetch(id, stmt)
            h.decrypt(id, rows, q, cols, hdr)
    elif x < .85:
        h.hopeless(rnd, t)
    elif x < .88:
        bad = rnd.choice(['select nothing from %s', 'selec * from %s', 'select * from %s where', 'select * from no_%s', '', ';', 'x',
                          'insert into %s (nothing) values (1)', 'drop table no_%s', 'select * from %s limit -'])
        h.refuse(bad % t.name if '%s' in bad else bad)
    elif x < .94:
        if rnd.random() < .3:
            # requests that fail half way, on every thread that may serve the next ones
            for _ in range(2):
                h.hopeless(rnd, t, get=True)
            u = rnd.choice(tabs)
            if u in state['made']:
                h.drop(u)
                state['made'].remove(u)
            else:
                h.create(u, ine=rnd.random() < .3)
                state['made'].append(u)
            h.at(t)
        h.schema()
    elif x < .97:
        h.drop(t)
        state['made'].remove(t)
    else:
        h.probe()


def prepare(h, g, rnd):
    h.w.rnd = rnd
    h.w.ascii = rnd.random() < .5
    tabs = []
    for n in rnd.sample(G.TNAMES, rnd.choice([2, 3])):
        web = rnd.random() < .5
        t = plain_table(g, rnd, n) if web else p10.table(g, rnd, n)
        t.web = web
        t.src = rnd.choice(h.sources)
        tabs.append(t)
    h.tables += tabs
    return tabs


def web(h, g, rnd):
    h.track = True
    h.sources = [h.home, H.Source('other', '10.0.0.7', 3307, 'app', 'secret'), H.Source('points2')]
    for s in h.sources:
        h.w.server.dbs.get(s.key) or h.w.server.add_db(s.db, s.host, s.port)
    h.w.server.accounts = {('127.0.0.1', 3306, 'root'): ('root', {'points', 'points2'}),
                           ('10.0.0.7', 3307, 'app'): ('secret', {'other'})}
    tabs = prepare(h, g, rnd)
    state = {'made': [], 'faults': True}
    h.store = 'always'
    for _ in range(rnd.randint(16, 24)):
        step(h, g, rnd, tabs, state)


def together(seed, id, n):
    """n clients of n databases at the same time"""
    with httpworld.HttpWorld(shuffle=random.Random(seed * 1000003 + id)) as w:
        hs = []
        for k in range(n):
            w.server.add_db('db%d' % k)
        w.boot()
        for k in range(n):
            h = WebHistory(w, id * 100 + k, 'db%d' % k)
            w.source_id(w.info(h.src.db, **h.src.info))
            h.sources = [h.home]
            hs.append(h)
        errors = []

        def client(h):
            try:
                rnd = random.Random('together/%s/%d' % (seed, h.id))
                g = G.Gen(rnd)
                tabs = prepare(h, g, rnd)
                h.w.rnd = None
                state = {'made': []}
                h.store = False
                for _ in range(10):
                    step(h, g, rnd, tabs, state)
            except Exception as e:             # noqa: BLE001
                errors.append(e)
        with W.silence():
            ths = [threading.Thread(target=client, args=(h,)) for h in hs]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        if errors:
            raise errors[0]
        return [(h.finish(), [s for s, _ in h.sqls], [e['err'] for e in h.events]) for h in hs]


def check(rep):
    n = 1 if not rep.thorough else 10
    sem.run(rep, [(web, 220 * n)], world=httpworld.HttpWorld, history=WebHistory)
    # at the same time: real threads, every client's history by itself is one of a plaintext database
    results = par.pmap(together, [(rep.seed, 10 ** 4 + i, 6) for i in range(16 * n)])
    traces, info = [], {}
    for st, val in results:
        if st == 'repo':
            rep.violation('exception', {'profile': 'together', 'exception': val})
            continue
        if st != 'ok':
            rep.trouble(val)
            continue
        for tr, sqls, errs in val:
            traces.append(tr)
            info[tr['id']] = ('together', sqls, errs, tr)
    sem.judge(rep, traces, info)
