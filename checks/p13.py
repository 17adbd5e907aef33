"""P13 databases and credentials are kept apart"""
import random

import p10
import sem

H = sem.H
S = H.Source
# The parameters of many of them agree when written one after the other.  Database names are distinct:
# the catalog does not know hosts (known finding).
PLACES = [S('points'), S('6points', port=330), S('06points', port=33), S('points2'), S('pointsr', user='oot'),
          S('pointsroo', user='t'), S('2points', host='127.0.0.1', port=3306), S('points3', host='127.0.0.13', port=306),
          S('3points', host='127.0.0.1', port=33063), S('point', user='sroot'), S('p', user='ointsroot'), S('other', host='10.0.0.7'),
          S('points_', user='root', password='root'), S('%', user='root'), S('pointsroot', user='root', password='')]


def accounts(rnd, places, server):
    """accounts of every server, their passwords chosen so that user and password together coincide too"""
    server.accounts = {('127.0.0.1', 3306, 'root'): ('123456', {'eulerdb_schema'})}
    out = {}
    for s in places:
        server.dbs.get(s.key) or server.add_db(s.db, s.host, s.port)
        out[s.key] = []
        for user, pw in rnd.sample([('app', 'secret'), ('ap', 'psecret'), ('apps', 'ecret'), ('a', 'ppsecret'), (s.user + 'x', s.password),
                                    (s.user + 'y', 'x' + s.password)], rnd.choice([1, 2, 3])):
            k = (s.host, int(s.port), user)
            if k in server.accounts:
                pw = server.accounts[k][0]
            server.accounts.setdefault(k, (pw, set()))[1].add(s.db)
            out[s.key].append(S(s.db, s.host, s.port, user, pw))
    return out


def forged(rnd, server, src, places):
    """a request of an account that may not do it"""
    for _ in range(50):
        o = rnd.choice(places)
        user, pw = rnd.choice([(src.user, src.password + 'x'), (src.user, ''), (src.user + src.password[:1], src.password[1:]),
                               (src.user[:-1], src.user[-1:] + src.password), (o.user, o.password), ('nobody', src.password),
                               (src.user.upper(), src.password), (src.user, src.password.upper()), (src.password, src.user)] +
                              [(k[2], v[0]) for k, v in server.accounts.items()])
        a = server.accounts.get((src.host, int(src.port), user))
        if a is None or a[0] != pw or src.db not in a[1]:
            return S(src.db, src.host, src.port, user, pw)
    return None


def apart(h, g, rnd):
    h.track = True
    places = rnd.sample(PLACES, rnd.choice([2, 3, 4]))
    acc = accounts(rnd, places, h.w.server)
    names = rnd.sample(sem.G.TNAMES, 2)
    tabs = []
    for s in places:
        for n in names[:rnd.choice([1, 2])]:
            t = p10.table(g, rnd, n)
            if tabs and rnd.random() < .4:
                # the columns of a table of another database, encrypted another way
                t = H.Table(n, [H.Col(c.name, c.typ, c.n, rnd.choice([None, c.enc, g.enc(c.typ)])) for c in rnd.choice(tabs).cols])
            t.src = acc[s.key][0]
            tabs.append(t)
    h.tables += tabs
    for _ in range(rnd.randint(16, 24)):
        t = rnd.choice(tabs)
        good = rnd.choice(acc[t.src.key])
        bad = forged(rnd, h.w.server, good, places) if rnd.random() < .2 else None
        t.src = bad or S(good.db, good.host, rnd.choice([good.port, str(good.port)]), good.user, good.password)
        h.at(t)
        exists = h.owner.get((t.src.key, t.name)) is t
        x = rnd.random()
        if not exists or x < .1:
            h.create(t, ine=rnd.random() < .3)
        elif x < .18:
            h.drop(t)
        elif x < .45:
            g.insert(h, t)
        elif x < .55:
            g.update(h, t)
        elif x < .62:
            g.delete(h, t)
        elif x < .9:
            h.select(*g.query(h, t, order=.2))
        elif x < .95:
            h.probe()
        else:
            h.restart()
        if bad:
            t.src = good
    h.probe()


def same_name(h, g, rnd):
    """one table in each of two servers' databases of the same name"""
    for host in ('127.0.0.1', '10.0.0.7'):
        src = S('points', host)
        h.w.server.dbs.get(src.key) or h.w.server.add_db(src.db, src.host, src.port)
        t = H.Table('users', [H.Col('age', 'int')])
        t.src = src
        h.create(t)


def check(rep):
    sem.run(rep, [(apart, 350 if not rep.thorough else 3500), (same_name, 1)])
