"""S01 formatting a parsed statement preserves its meaning"""
import copy

import par
import sqltext
import tlc

CFG = """SPECIFICATION Spec
CONSTANTS Root = "%s" Room = %d Free = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def check(rep):
    got = []
    # every tree of operators up to a size: as a select item and as a predicate
    for root, room in (('Expr', 2), ('Pred', 1)) + ((('Pred', 2),) if rep.thorough else ()):
        part, r = tlc.behaviours('SqlGen', CFG % (root, room, 'FALSE', 'ReadsBack Report'))
        rep.tlc(r)
        part.sort(key=str)
        rep.add('trees_enumerated', len(part))
        got += part if rep.thorough else part[rep.seed % 4::4] if len(part) > 5000 else part
    # random statements of the whole grammar
    for room, num in ((12, 1), (25, 1), (40, .5)):
        n = int(num * (16000 if rep.thorough else 1600))
        part, r = tlc.behaviours('SqlGen', CFG % ('Stmt', room, 'TRUE', 'ReadsBack Report'), simulate=(n, 4000, rep.seed + room))
        rep.add('random_derivations', len(part))
        got += [x for x in part if len(x['k']) < 400]
    args = [(i, x['p'], x['k'], rep.seed) for i, x in enumerate(got)]
    traces, seen = [], {}
    for a, (st, val) in zip(args, par.pmap(sqltext.record, args)):
        if st == 'repo':
            rep.violation('exception', {'id': a[0], 'derivation': a[1], 'exception': val})
        elif st != 'ok':
            rep.trouble(val)
        else:
            traces.append(val[0])
            seen[a[0]] = dict(val[1], trace=val[0])
    probes = []
    for i, t in enumerate([t for t in traces if len(t['p']) > 25 and len(t['toks']) > 9 and len(t['trees'][1]) > 9][::25][:20]):
        p = copy.deepcopy(t)
        p['id'] += 10 ** 8
        if i % 4 == 0:
            p['toks'] = [x for x in p['toks'] if x[0] not in '()'][:-1]
        elif i % 4 == 1:
            k = [n for n, x in enumerate(p['trees'][1]) if x[0] in ('name', 'num', 'str')][-1]
            p['trees'][1][k][1] += '1'
        elif i % 4 == 2:
            p['again'] = p['again'] + [['nil', '']]
        else:
            p['toks'][-1] = ['name', 'zz']
        probes.append(p)
    for k in range(0, len(traces), 2500):
        bad, r = tlc.validate('SqlTrace', traces[k:k + 2500] + (probes if not k else []))
        rep.tlc(r)
        if not k:
            rep.probed(probes, bad, 10 ** 8)
        for i, (clause, pos) in sorted(bad.items()):
            if i in seen:
                rep.violation(clause, dict(seen[i], id=i))
    rep.add('traces_validated_against_impl', len(traces))
    for i in (0, len(traces) // 2, len(traces) - 1):
        rep.sample(seen[traces[i]['id']]['texts'][1])
