"""S02 the analyser's statement kind, tables and columns are the statement's"""
import copy

import par
import sqlparts
import tlc

CFG = """SPECIFICATION Spec
CONSTANTS Root = "%s" Room = %d Free = %s
INVARIANTS Report
CHECK_DEADLOCK FALSE
"""


def check(rep):
    got = []
    # every tree of operators up to a size: as a select item and as a predicate
    for root, room in (('Expr', 1), ('Pred', 1)) + ((('Expr', 2),) if rep.thorough else ()):
        part, r = tlc.behaviours('SqlGen', CFG % (root, room, 'FALSE'))
        rep.tlc(r)
        part.sort(key=str)
        rep.add('trees_enumerated', len(part))
        got += part
    # random statements of the whole grammar, and of the kinds around it
    for room, num in ((2, 1), (6, 1), (12, 1), (25, .7), (40, .4)):
        n = int(num * (20000 if rep.thorough else 2000))
        part, r = tlc.behaviours('SqlGen', CFG % ('Any', room, 'TRUE'), simulate=(n, 4000, rep.seed + 100 + room))
        rep.add('random_derivations', len(part))
        got += [x for x in part if len(x['k']) < 400]
    args = [(i, x['p'], x['k'], rep.seed) for i, x in enumerate(got)]
    traces, seen, kinds = [], {}, {}
    for a, (st, val) in zip(args, par.pmap(sqlparts.record, args)):
        if st == 'repo':
            rep.violation('exception', {'id': a[0], 'derivation': a[1], 'exception': val})
        elif st != 'ok':
            rep.trouble(val)
        else:
            traces.append(val[0])
            seen[a[0]] = dict(val[1], trace=val[0])
            kinds[a[1][0]] = kinds.get(a[1][0], 0) + 1
    probes = []
    for i, t in enumerate([t for t in traces if t['said'][0]['kind'] != 'unsupported' and not t['said'][0]['refused'] and t['said'][0]['tables'] and t['said'][1]['columns'] and t['said'][0]['kind'] != 'ALTER TABLE'][::25][:24]):
        p = copy.deepcopy(t)
        p['id'] += 10 ** 8
        s = p['said'][i % 2]
        if i % 5 == 0:
            s['kind'] = 'DELETE' if s['kind'] != 'DELETE' else 'UPDATE'
        elif i % 5 == 1:
            s['tables'].pop()
        elif i % 5 == 2:
            s['tables'].append('zz')
        elif i % 5 == 3:
            s['columns'].pop()
        else:
            s['columns'].append('zz')
        probes.append(p)
    for k in range(0, len(traces), 4000):
        bad, r = tlc.validate('PartsTrace', traces[k:k + 4000] + (probes if not k else []))
        rep.tlc(r)
        if not k:
            rep.probed(probes, bad, 10 ** 8)
        for i, (clause, pos) in sorted(bad.items()):
            if i in seen:
                rep.violation(clause, dict(seen[i], id=i))
    for k in sorted(kinds):
        rep.add('statements_' + k, kinds[k])
    rep.add('traces_validated_against_impl', len(traces))
    for i in (0, len(traces) // 2, len(traces) - 1):
        rep.sample(seen[traces[i]['id']]['texts'][1])
