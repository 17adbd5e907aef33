"""P07 no plaintext of protected data reaches the backend"""
import sem
import leak

H, G = sem.H, sem.G
TABLES = ['patients', 'payroll_data', 'invoices_x', 'custodians']
COLS = ['diagnosis', 'salary_amt', 'surname_x', 'birthplace', 'balance_v', 'riskscore', 'ward_room', 'visits_n']


class Secrets(G.Gen):
    """distinctive values, watched when their column is encrypted"""
    def fresh(self, col):
        r = self.rnd
        if col.typ == 'int':
            v = r.choice([-1, 1]) * r.randint(10 ** 5, 2 ** 31 - 1) if r.random() < .8 else r.randint(-99, 99)
        elif col.typ in ('float', 'double'):
            v = round(r.uniform(-999, 999), 5) if col.enc else r.randint(-4000, 4000) / 8
        else:
            n = r.randint(8, min(14, col.n)) if r.random() < .75 else r.randint(1, 7)
            v = ''.join(r.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(n))
            if col.enc and r.random() < .4:
                v = v[:5] + r.choice([' ', "'", '%', ';', 'Q', 'Ü' if col.n > 30 else 'q', '"', '--', '漢' if col.n > 30 else '0']) + v[5:]
                v = v[:col.n - 4] if len(v.encode()) > col.n else v
        if col.enc:
            self.watch.value(v)
        return v


def templates(rnd, g, t):
    """(refused?, sql): statements the proxy cannot translate, or perhaps can"""
    L = H.lit
    enc = [c for c in t.cols if c.enc]
    c = rnd.choice(enc)
    d = rnd.choice(t.cols)
    n, T, v, v2 = c.name, t.name, L(g.fresh(c)), L(g.fresh(c))
    dv = L(g.fresh(d))
    word = str(g.fresh(H.Col('x', 'varchar', 20, {'key': 'k'})))
    out = [
        (1, 'select %s from %s where %s in (%s, %s)' % (d.name, T, n, v, v2)),
        (1, 'select %s from %s where %s between %s and %s' % (d.name, T, n, v, v2)),
        (1, 'select %s from %s where %s <> %s' % (d.name, T, n, v)),
        (1, 'select %s from %s where %s != %s' % (d.name, T, n, v)),
        (1, 'select %s from %s where not %s = %s' % (d.name, T, n, v)),
        (1, 'select %s from %s where not (%s = %s)' % (d.name, T, n, v)),
        (1, 'select %s from %s where %s not in (%s)' % (d.name, T, n, v)),
        (1, 'select %s from %s where upper(%s) = %s' % (d.name, T, n, v)),
        (1, 'select %s from %s where %s = upper(%s)' % (d.name, T, n, v)),
        (1, 'select upper(%s) from %s' % (n, T)),
        (1, 'select length(%s) from %s where %s = %s' % (n, T, n, v)),
        (1, 'select concat(%s, %s) from %s' % (n, L(word), T)),
        (1, 'select %s from %s where abs(%s) > %s' % (d.name, T, n, v)),
        (1, 'update %s set %s = upper(%s)' % (T, n, v)),
        (1, 'update %s set %s = %s where %s in (%s)' % (T, d.name, dv, n, v)),
        (1, 'delete from %s where %s <> %s' % (T, n, v)),
        (1, 'delete from %s where %s in (%s, %s)' % (T, n, v, v2)),
        (1, 'insert into %s values (%s)' % (T, ', '.join(L(g.fresh(x)) for x in t.cols))),
        (0, 'select %s from %s where %s = %s' % (d.name, T, v, n)),
        (0, 'select %s from %s where %s is null' % (d.name, T, n)),
        (0, 'select %s from %s where %s is not null' % (d.name, T, n)),
        (0, 'select %s as z from %s where %s = %s' % (n, T, n, v)),
        (0, 'select %s.%s from %s where %s.%s = %s' % (T, n, T, T, n, v)),
        (0, 'select x.%s from %s x where x.%s = %s' % (n, T, n, v)),
        (0, 'select %s from %s where %s = %s group by %s' % (n, T, n, v, n)),
        (0, 'select %s, count(*) from %s group by %s having %s = %s' % (n, T, n, n, v)),
        (0, 'select count(%s) from %s where %s = %s' % (n, T, n, v)),
        (0, 'select count(distinct %s) from %s' % (n, T)),
        (0, 'select %s from %s where %s = %s union select %s from %s' % (n, T, n, v, n, T)),
        (0, 'select %s from %s where %s in (select %s from %s)' % (n, T, n, n, T)),
        (0, 'select case when %s = %s then 1 else 0 end from %s' % (n, v, T)),
        (0, 'select %s from %s where %s = %s and (%s = %s or not %s = %s)' % (n, T, n, v, d.name, dv, n, v2)),
        (0, 'select * from %s where %s > %s and %s in (%s)' % (T, n, v, d.name, dv)),
        (0, 'update %s set %s = %s + 1' % (T, n, n)),
        (0, 'update %s set %s = %s' % (T, n, d.name)),
        (0, 'update %s set %s = %s where %s = %s' % (T, d.name, dv, v, n)),
        (0, 'insert into %s (%s) select %s from %s where %s = %s' % (T, n, n, T, n, v)),
        (0, 'insert into %s (%s) values (%s + 1)' % (T, n, v)),
        (0, 'insert into %s (%s) values (upper(%s))' % (T, n, L(word))),
        (0, 'insert into %s (%s, nosuchcol) values (%s, %s)' % (T, n, v, L(word))),
        (0, 'insert into %s (%s) values (%s, %s)' % (T, n, v, v2)),
        (0, 'select %s from %s where %s = %s order by %s' % (n, T, n, v, n)),
        (0, 'select %s from %s where %s = %s limit 2 offset 1' % (n, T, n, v)),
        (0, 'select %s from nosuchtable where %s = %s' % (n, n, v)),
        (0, 'select nosuchcol from %s where %s = %s' % (T, n, v)),
        (0, 'select %s from %s where nosuchcol = 1 and %s = %s' % (n, T, n, v)),
        (0, 'select %s from %s where %s = %s and' % (n, T, n, v)),
        (0, 'selec %s from %s where %s = %s' % (n, T, n, v)),
        (0, 'select %s from %s where %s == %s' % (n, T, n, v)),
        (0, 'select %s from %s where %s <=> %s' % (n, T, n, v)),
        (0, 'select %s from %s where %s = %s' % (n.upper(), T, n.upper(), v)),
        (0, 'select %s from %s where %s = %s' % (n, T.upper(), n, v)),
        (0, 'select `%s` from `%s` where `%s` = %s' % (n, T, n, v)),
        (0, 'select %s /* %s */ from %s where %s = %s' % (n, word, T, n, v)),
        (0, 'select %s from %s where %s = %s -- %s' % (n, T, n, v, word)),
        (0, 'select %s from %s where (%s, %s) = (%s, %s)' % (n, T, n, d.name, v, dv)),
        (0, 'select %s from %s where %s = cast(%s as char)' % (n, T, n, v)),
        (0, "select %s from %s where exists (select %s from %s where %s = %s)" % (n, T, n, T, n, v)),
        (0, 'select %s from %s where %s >= all (select %s from %s)' % (n, T, n, n, T)),
        (0, 'alter table %s add column %s int' % (T, 'extra_secret')),
        (0, 'truncate table %s' % T),
        (0, 'replace into %s (%s) values (%s)' % (T, n, v)),
        (0, 'show columns from %s' % T),
        (0, 'describe %s' % T),
        (0, 'rename table %s to zz' % T),
        (0, 'create index ix on %s (%s)' % (T, n)),
        (0, 'drop index ix on %s' % T),
        (0, 'explain select %s from %s where %s = %s' % (n, T, n, v)),
        (0, 'select %s from %s where %s = %s for update' % (n, T, n, v)),
        (0, 'insert into %s set %s = %s' % (T, n, v)),
        (0, 'insert into %s (%s) values (%s) on duplicate key update %s = %s' % (T, n, v, n, v2)),
        (0, 'select @x := %s from %s where %s = %s' % (n, T, n, v)),
        (0, 'set @x = %s' % v),
        (0, 'select %s' % v),
        (0, 'select %s, %s from %s' % (v, n, T)),
        (0, 'select sum(%s) from %s where %s = %s' % (n, T, n, v)),
        (0, 'select avg(%s), max(%s) from %s where %s = %s' % (n, n, T, n, v)),
        (0, 'select max(%s) from %s where %s < %s' % (n, T, n, v)),
        (0, 'select %s + %s from %s' % (n, d.name, T)),
        (0, 'select %s + 1 from %s where %s = %s' % (n, T, n, v)),
        (0, 'select a.%s from %s a join %s b on a.%s = b.%s where b.%s = %s' % (n, T, T, n, n, n, v)),
        (0, 'select %s from (select %s from %s where %s = %s) as q where %s = %s' % (n, n, T, n, v, n, v2)),
        (0, 'select %s from (select %s from (select %s from %s where %s = %s) as q) as r' % (n, n, n, T, n, v)),
        (0, 'create table %s (%s int default %s)' % (T, n, v)),
    ]
    if c.text:
        out += [(1, 'select %s from %s order by %s' % (d.name, T, n)),
                (1, 'select %s from %s where %s > %s' % (d.name, T, n, v)),
                (1, 'select max(%s) from %s' % (n, T)),
                (0, "select %s from %s where %s like '%s'" % (n, T, n, word)),
                (0, "select %s from %s where %s not like '%%%s%%'" % (n, T, n, word)),
                (0, "select %s from %s where %s like '%%%s%%' and %s in (%s)" % (n, T, n, word, d.name, dv)),
                (0, "select %s from %s where %s regexp '%s'" % (n, T, n, word)),
                (0, "select %s from %s where %s rlike '%s'" % (n, T, n, word)),
                (0, "update %s set %s = %s where %s like '%%%s%%'" % (T, d.name, dv, n, word)),
                (0, "delete from %s where %s like '%%%s%%'" % (T, n, word))]
        if not c.enc.get('fuzzy'):
            out += [(1, "select %s from %s where %s like '%%%s%%'" % (d.name, T, n, word)),
                    (1, "delete from %s where %s like '%s%%'" % (T, n, word))]
    else:
        out += [(0, "select %s from %s where %s = '%s'" % (n, T, n, v)),
                (0, "select %s from %s where %s > '%s'" % (n, T, n, v)),
                (0, "insert into %s (%s) values ('%s')" % (T, n, v)),
                (0, "update %s set %s = '%s'" % (T, n, v)),
                (0, "select %s from %s where %s like '%%%s%%'" % (n, T, n, word)),
                (0, "select %s from %s where %s = -%s" % (n, T, n, v)),
                (0, "insert into %s (%s) values (%s)" % (T, n, L(word))),
                (0, "select %s from %s where %s = %s" % (n, T, n, L(word))),
                (0, "select %s from %s where %s < %s" % (n, T, n, L(word)))]
    # a spare statement-level change: another case, more blanks
    return out


def SHARED(rnd, g, a, b, name):
    """a join of two tables with a column of one name: a condition which the
    proxy cannot translate, on the column of the table which protects it"""
    c = next(x for x in a.cols if x.name == name)
    v = H.lit(g.fresh(c))
    on = '%s.%s = %s.%s' % (a.name, a.cols[0].name, b.name, b.cols[0].name)
    x, y, join = a.name, b.name, '%s join %s' % (a.name, b.name)
    if rnd.random() < .5:
        x, y = rnd.sample(['p', 'q'], 2)
        join = '%s %s join %s %s' % ((a.name, x, b.name, y) if rnd.random() < .5 else (b.name, y, a.name, x))
        on = '%s.%s = %s.%s' % (x, a.cols[0].name, y, b.cols[0].name)
    cond = rnd.choice(['{0}.{1} in ({2})', '{0}.{1} <> {2}', '{0}.{1} not in ({2})',
                       'upper({0}.{1}) = {2}', 'not {0}.{1} = {2}', '{0}.{1} between {2} and {2}']).format(x, name, v)
    return 'select %s.%s from %s on %s where %s' % (y, b.cols[-1].name, join, on, cond)


def leaks(h, g, rnd):
    g = Secrets(rnd)
    h.watch = g.watch = leak.Watch()
    h.only_seen = True
    tabs = []
    names = rnd.sample(COLS, 8)
    both = rnd.sample(TABLES, rnd.choice([1, 2]))
    # a name which two tables have, and which only one of them protects
    shared = names.pop() if len(both) == 2 and rnd.random() < .6 else None
    order = rnd.sample([0, 1], 2)
    for k, name in enumerate(both):
        t = H.Table(name, [g.col(names.pop()) for _ in range(rnd.randint(1, 3))])
        if shared:
            c = g.col(shared)
            c.enc = g.enc(c.typ) if order[k] else None
            t.cols.insert(rnd.randint(0, len(t.cols)), c)
        if not any(c.enc for c in t.cols):
            t.cols[0].enc = g.enc(t.cols[0].typ)
        for c in t.cols:
            if c.enc and c.typ == 'int' and rnd.random() < .4:
                c.enc = g.enc('int', arith=True)
            if c.enc and c.name != shared:
                h.watch.name(c.name)
        h.watch.name(name)
        h.create(t)
        tabs.append(t)
        g.insert(h, t, nmax=3, all_cols=True)
    for _ in range(rnd.randint(12, 18)):
        t = rnd.choice(tabs)
        x = rnd.random()
        if x < .12:
            g.insert(h, t)
        elif x < .22:
            g.update(h, t)
        elif x < .25:
            g.delete(h, t)
        elif x < .4:
            h.select(*g.query(h, t, order=.3))
        elif x < .45:
            h.select(*g.aggquery(h, t, funcs=('count', 'max', 'min', 'sum', 'avg')))
        elif x < .5:
            h.bulk(t, list(range(len(t.cols))), [[g.value(c, 0) for c in t.cols] for _ in range(3)], 2)
        elif x < .53:
            i = rnd.randrange(len(t.cols))
            rows = [[g.value(c, 0) for c in t.cols] for _ in range(3)]
            if not t.cols[i].text:
                bad = g.fresh(H.Col('x', 'varchar', 20, t.cols[i].enc))
                rows[1][i] = H.Bad(bad)
                h.bulk(t, list(range(len(t.cols))), rows, 3)
        elif shared and x < .72:
            a, b = tabs if tabs[0].cols[[c.name for c in tabs[0].cols].index(shared)].enc else tabs[::-1]
            h.refuse(SHARED(rnd, g, a, b, shared))
        elif x < .56 and len(tabs) > 1:
            a, b = tabs
            h.free('select * from %s join %s on %s.%s = %s.%s' % (a.name, b.name, a.name, a.cols[0].name, b.name, b.cols[0].name))
            h.free('select %s.%s from %s, %s where %s.%s = %s' % (a.name, a.cols[0].name, a.name, b.name, a.name, a.cols[0].name, H.lit(g.fresh(a.cols[0]))))
        else:
            must, sql = rnd.choice(templates(rnd, g, t))
            (h.refuse if must else h.free)(sql)


def check(rep):
    sem.run(rep, [(leaks, 500 if not rep.thorough else 5000)])
