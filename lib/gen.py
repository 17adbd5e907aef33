"""Seeded generator of schemas, values, predicates and queries of the supported classes."""
import random
import string

import hist as H

OPS = list(H.OPS)
ASCII = string.ascii_letters + string.digits
WORDS = ['alpha', 'beta', 'gamma', 'x', '', ' ', 'a b', "it's", 'select', 'null', '0', '-1', '1.5', 'and', 'or', ',', ';', '(', 'a,b',
         '%', '_', 'q%', 'Zed', '"q"', '`b`', '--', '#1', '/*', 'tr', 'true', 'NULL_', 'ümlaut', '漢字', 'ß', 'naïve', '日本語テキスト', '1e3', '0x1f',
         'sixteen_chars_ab', 'fifteen_chars_a', 'seventeen_chars_a', '=', '@x', ':y', '?', '{}', '%s', '%(a)s', '\t', 'a=b', 'ends in blanks  ', 'x ', ' x', 'tab\t', 'line\n', 'a\nb', 'sixteen chars ab', 'back\\slash', '\\', "\\'", '\\n', 'a\\', '"', "'", "''", "x'--"]
NAMES = ['id', 'age', 'name_', 'score', 'city', 'note', 'v1', 'V2', 'total_sum', 'colx', 'amount', 'tag']
TNAMES = ['points', 'users', 'orders_', 'T_big', 'items', 'log1']
INTS = [0, 1, -1, 2, 3, 5, 10, 99, 100, -7, 1000, 32767, -32768, 65536, 2 ** 31 - 1, -2 ** 31, 123456789, -987654321]
FLOATS = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 3.14159, -2.71828, 0.000001, -0.001, 100.25, 999.999, -999.001, 12.0, 1000.0, 7]


class Gen:
    def __init__(self, rnd, ascii_only=False):
        self.rnd = rnd
        self.ascii_only = ascii_only
        self.pool = {}

    # ---- schema
    def enc(self, typ, fuzzy=None, arith=False, sm4=None, key=None):
        r = self.rnd
        e = {'fuzzy': (r.random() < .4 if fuzzy is None else fuzzy) and typ in ('varchar', 'char'),
             'key': key or r.choice(['abcdefgopqrst', 'k1', 'another key', 'ключ', 'p@ss w0rd'])}
        if arith and typ == 'int':
            e['arithmetic'] = True
            e['homomorphic_key'] = r.choice(H.HKEYS)
        if r.random() < .25 if sm4 is None else sm4:
            e['sm4'] = True
            e['sm4_key'] = r.choice(['sm4key', 'k1', 'xyz'])
        return e

    def col(self, name, types=('int', 'int', 'varchar', 'varchar', 'char', 'float', 'double'), p_enc=.65, **kw):
        r = self.rnd
        typ = r.choice(types)
        n = None
        if typ == 'varchar':
            n = r.choice([20, 20, 40, 100])
        elif typ == 'char':
            n = r.choice([8, 20])
        return H.Col(name, typ, n, self.enc(typ, **kw) if r.random() < p_enc else None)

    def table(self, name=None, ncols=None, **kw):
        r = self.rnd
        names = r.sample(NAMES, ncols or r.randint(1, 5))
        return H.Table(name or r.choice(TNAMES), [self.col(n, **kw) for n in names])

    # ---- values
    def value(self, col, null=.12):
        r = self.rnd
        if not col.notnull and r.random() < null:
            return None
        pool = self.pool.setdefault(id(col), [])
        if pool and r.random() < .5:
            return r.choice(pool)
        v = self.fresh(col)
        pool.append(v)
        return v

    def fresh(self, col):
        r = self.rnd
        if col.typ == 'int':
            return r.choice(INTS) if r.random() < .6 else r.randint(-2 ** r.randint(1, 31), 2 ** r.randint(1, 31) - 1)
        if col.typ in ('float', 'double'):
            if not col.enc:         # a plaintext FLOAT of MySQL keeps these exactly
                return r.choice([0.0, .5, -.5, 1.5, 2.25, -3.75, 100.125, 8.0, 1024.0, -7.5]) if r.random() < .8 else r.randint(-50, 50)
            if r.random() < .5:
                return r.choice(FLOATS)
            if col.typ == 'double' and r.random() < .25:
                v = r.choice([1, -1]) * r.randint(10 ** 4, 9 * 10 ** 6)
                return v if r.random() < .6 else float(v)
            return round(r.uniform(-1, 1) * 10 ** r.randint(-3, 3 if col.typ == 'float' else 5), r.randint(1, 6))
        while True:
            if r.random() < .6:
                s = r.choice(WORDS)
            else:
                s = ''.join(r.choice(ASCII) for _ in range(r.randint(1, min(col.n, 18))))
            if len(s.encode()) > col.n or (self.ascii_only and not s.isascii()):
                continue
            if not col.enc or True:
                # MySQL's collation: avoid values that differ in case, accents or trailing blanks only
                if s != s.rstrip() and not (col.enc and col.typ == 'varchar'):
                    continue
                if not col.enc:
                    s = s.lower()
                    if not s.isascii():
                        continue
            return s

    # ---- predicates
    def constant(self, col):
        r = self.rnd
        pool = [v for v in self.pool.get(id(col), []) if v is not None]
        if pool and r.random() < .75:
            v = r.choice(pool)
            if col.typ == 'int' and r.random() < .2 and abs(v) < 2 ** 31 - 1:
                v += r.choice([-1, 1])
            if col.typ in ('float', 'double') and v == int(v) and r.random() < .5:
                v = float(v) if isinstance(v, int) else int(v)      # 7 and 7.0
            return v
        return self.fresh(col)

    def atom(self, h, t, cols=None):
        r = self.rnd
        i = r.choice(cols if cols is not None else range(len(t.cols)))
        c = t.cols[i]
        if c.text:
            # a plaintext string column of MySQL orders by collation: equality only
            op = 'eq'
        else:
            op = r.choice(OPS)
        return {'k': 'cmp', 'op': op, 'c': i + 1, 'v': h.V(self.constant(c))}

    def pred(self, h, t, depth=2, p_true=.15, cols=None, atom=None):
        r = self.rnd
        if r.random() < p_true:
            return {'k': 'true'}
        return self._pred(h, t, depth, cols, atom or self.atom)

    def _pred(self, h, t, depth, cols, atom):
        r = self.rnd
        if depth == 0 or r.random() < .35:
            return atom(h, t, cols)
        k = r.choice(['and', 'or'])
        n = r.choice([2, 2, 3])
        return {'k': k, 'a': [self._pred(h, t, depth - 1, cols, atom) for _ in range(n)]}

    # ---- queries
    def columns(self, t):
        r = self.rnd
        if r.random() < .3:
            return None
        return [r.randrange(len(t.cols)) for _ in range(1)] if r.random() < .2 else \
            r.sample(range(len(t.cols)), r.randint(1, len(t.cols)))

    def kw(self, s):
        r = self.rnd
        x = r.random()
        return s if x < .7 else s.upper() if x < .9 else s.capitalize()

    def query(self, h, t, order=0., limit=.2, distinct=.2, where=None):
        """Returns (sql, q, cols, hdr)"""
        r = self.rnd
        cols = self.columns(t)
        names = [c.name for c in t.cols]
        sel = list(range(len(names))) if cols is None else cols
        where = self.pred(h, t) if where is None else where
        w = H.pred_sql(where, names, r)
        od = []
        num = [i for i, c in enumerate(t.cols) if not c.text]
        if num and r.random() < order:
            od = [{'c': i + 1, 'desc': r.random() < .5} for i in r.sample(num, r.randint(1, min(3, len(num))))]
        dist = not od and r.random() < distinct
        lim = r.choice([0, 1, 2, 3, 5, 100]) if r.random() < limit else -1
        sql = '%s %s%s %s %s' % (self.kw('select'), self.kw('distinct ') if dist else '',
                                 '*' if cols is None else r.choice([', ', ',', ' , ']).join(names[i] for i in cols),
                                 self.kw('from'), t.name)
        if w:
            sql += ' %s %s' % (self.kw('where'), w)
        if od:
            sql += ' %s %s' % (self.kw('order by'), ', '.join(
                names[o['c'] - 1] + (' ' + self.kw('desc') if o['desc'] else r.choice(['', ' asc'])) for o in od))
        if lim >= 0:
            sql += ' limit %d' % lim
        if r.random() < .15:
            sql += ';'
        q = {'from': {'kind': 'table', 't': h.tid(t)}, 'where': where, 'cols': [i + 1 for i in sel], 'distinct': dist, 'order': od,
             'limit': lim, 'aggs': []}
        return sql, q, [t.cols[i] for i in sel], [names[i] for i in sel]

    def aggquery(self, h, t, where=None, funcs=('count', 'max', 'min'), nmax=4):
        r = self.rnd
        names = [c.name for c in t.cols]
        num = [i for i, c in enumerate(t.cols) if not c.text]
        ari = [i for i, c in enumerate(t.cols) if c.enc and c.enc.get('arithmetic')]
        where = self.pred(h, t) if where is None else where
        w = H.pred_sql(where, names, r)
        aggs, parts, cols = [], [], []
        for _ in range(r.randint(1, nmax)):
            f = r.choice(funcs)
            if f == 'count':
                aggs.append({'f': 'count', 'c': 1})
                parts.append(self.kw('count') + '(*)')
                cols.append(None)
                continue
            cand = ari if f in ('sum', 'avg') else num
            if not cand:
                continue
            i = r.choice(cand)
            if any(a['f'] == f and a['c'] == i + 1 for a in aggs):
                continue
            aggs.append({'f': f, 'c': i + 1})
            parts.append('%s(%s)' % (self.kw(f), names[i]))
            cols.append(t.cols[i])
        if not aggs:
            return self.aggquery(h, t, where, ('count',), 1)
        if sum(a['f'] == 'count' for a in aggs) > 1:
            k = [j for j, a in enumerate(aggs) if a['f'] != 'count' or j == [a['f'] for a in aggs].index('count')]
            aggs, parts, cols = [aggs[j] for j in k], [parts[j] for j in k], [cols[j] for j in k]
        sql = '%s %s from %s%s' % (self.kw('select'), ', '.join(parts), t.name, ' where ' + w if w else '')
        q = {'from': {'kind': 'table', 't': h.tid(t)}, 'where': where, 'cols': [], 'distinct': False, 'order': [], 'limit': -1,
             'aggs': aggs}
        return sql, q, cols, []

    # ---- writes
    def insert(self, h, t, nmax=4, all_cols=False, null=.12):
        r = self.rnd
        need = [i for i, c in enumerate(t.cols) if c.notnull]
        cols = list(range(len(t.cols)))
        if not all_cols and r.random() < .35:
            cols = sorted(set(need) | set(r.sample(cols, r.randint(1, len(cols)))))
        r.shuffle(cols)
        rows = [[self.value(t.cols[i], null) for i in cols] for _ in range(r.randint(1, nmax))]
        return h.insert(t, cols, rows)

    def update(self, h, t, **kw):
        r = self.rnd
        cols = r.sample(range(len(t.cols)), r.randint(1, min(3, len(t.cols))))
        return h.update(t, [(i, self.value(t.cols[i])) for i in cols], self.pred(h, t, **kw), r)

    def delete(self, h, t, **kw):
        kw.setdefault('p_true', .05)
        return h.delete(t, self.pred(h, t, **kw), self.rnd)
