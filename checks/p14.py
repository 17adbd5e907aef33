"""P14 bulk import equals inserting the rows one by one"""
import sem

H = sem.H


def fault_at(h, rnd, chunks, n, chunk):
    """the backend fails while chunk k (from 0) is sent; returns the chunks stored before"""
    k = rnd.randrange(chunks)
    how = rnd.choice(['row', 'row', 'reject', 'commit', 'commit-reject'])
    state = {'n': 0, 'done': False, 'rows': rnd.randint(1, min(chunk, n - k * chunk))}
    from mysql.connector import errors as E

    def fault(kind, conn, sql):
        if state['done']:
            return None
        if kind == 'execute' and state['n'] == k and how in ('row', 'reject') and str(sql).lower().startswith('insert'):
            state['rows'] -= 1
            if state['rows'] == 0:
                state['done'] = True
                return 'lost' if how == 'row' else E.DatabaseError(msg='Lock wait timeout exceeded', errno=1205)
        if kind == 'commit':
            if state['n'] == k and how.startswith('commit'):
                state['done'] = True
                return 'lost' if how == 'commit' else E.DatabaseError(msg='commit failed', errno=1180)
            state['n'] += 1
        return None
    h.w.server.fault = fault
    return k, state


def imports(h, g, rnd):
    t = g.table(ncols=rnd.randint(1, 5))
    for c in t.cols:
        if c.enc and c.typ == 'int' and rnd.random() < .3:
            c.enc = g.enc('int', arith=True)
    if rnd.random() < .3 and all(c.name != 'pid' for c in t.cols):
        t.cols.insert(rnd.randint(0, len(t.cols)), H.Col('pid', 'int', None, rnd.choice([None, g.enc('int')]), True))
        t.pk = [t.idx('pid')]
    h.create(t)
    for _ in range(rnd.randint(2, 5)):
        x = rnd.random()
        if x < .15:
            g.insert(h, t, nmax=3)
            continue
        if x < .3 and not t.pk:
            h.select(*g.query(h, t))
            continue
        cols = list(range(len(t.cols)))
        if rnd.random() < .3:
            cols = sorted(set(t.pk) | set(rnd.sample(cols, rnd.randint(1, len(cols)))))
        if rnd.random() < .6:
            rnd.shuffle(cols)
        chunk = rnd.choice([1, 2, 3, 4, 20])
        n = rnd.randint(1, 9)

        def cell(c):
            if c.name == 'pid':
                return rnd.randint(0, 60) if rnd.random() < .6 else rnd.randint(10 ** 6, 10 ** 8)
            while True:
                v = g.value(c, null=0)
                # the writer quotes what needs it; a lone empty text in a line is skipped by readers
                if v != '' or len(cols) > 1:
                    return v
        rows = [[cell(t.cols[i]) for i in cols] for _ in range(n)]
        if rnd.random() < .2:
            i = rnd.randrange(len(cols))
            c = t.cols[cols[i]]
            if c.typ == 'int':
                rows[rnd.randrange(n)][i] = H.Bad(rnd.choice(['abc', 'x1', 'one']))
            elif c.typ in ('float', 'double'):
                rows[rnd.randrange(n)][i] = H.Bad(rnd.choice(['abc', 'x1']))
            elif not c.enc:
                rows[rnd.randrange(n)][i] = H.Bad('y' * (c.n + 1))
        chunks = (n + chunk - 1) // chunk
        upto = None
        # all chunks that contain no bad value come before the fault, or the fault is reached first
        if rnd.random() < .3:
            upto = fault_at(h, rnd, chunks, n, chunk)
            if any(isinstance(v, H.Bad) for r in rows for v in r):
                h.w.server.fault, upto = None, None
            elif t.pk:
                h.w.server.fault, upto = None, None
        h.bulk(t, cols, rows, chunk, upto)
        h.w.server.fault = None
        if rnd.random() < .3:
            h.select(*g.query(h, t, where={'k': 'true'}, limit=0, distinct=0))


def check(rep):
    sem.run(rep, [(imports, 400 if not rep.thorough else 3000)])
