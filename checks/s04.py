"""S04 formatting SQL text changes nothing but what is asked for"""
import copy

import formats
import par
import s01
import s03
import tlc

CFG = """SPECIFICATION Spec
CONSTANT MaxToks = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def check(rep):
    # the way tokens are read and laid out, by itself
    for n, inv in ((2, 'ReadsBack Needed'), (3, 'ReadsBack')):
        rep.tlc(tlc.model('Layout', CFG % (n, inv)))
    got = []
    for room, num in ((8, .4), (45, 1)):
        part, r = tlc.behaviours('Script', s03.CFG % (room, 'Report'), simulate=(int(num * (16000 if rep.thorough else 1600)), 700, rep.seed + 7))
        got += [('script', x['o'], None) for x in part if len(x['o']) < 110]
        rep.add('random_derivations', len(part))
    for room, num in ((10, 1), (30, 1)):
        part, r = tlc.behaviours('SqlGen', s01.CFG % ('Stmt', room, 'TRUE', 'Report'),
                                 simulate=(int(num * (16000 if rep.thorough else 1600)), 4000, rep.seed + 70 + room))
        got += [('sql', x['p'], x['k']) for x in part if len(x['k']) < 200]
        rep.add('random_derivations', len(part))
    args = [(n * len(got) + i,) + x + (rep.seed,) for n in range(2 if rep.thorough else 1) for i, x in enumerate(got)]
    traces, seen = [], {}
    for a, (st, val) in zip(args, par.pmap(formats.record, args)):
        if st == 'repo':
            rep.violation('exception', {'id': a[0], 'derivation': a[2], 'exception': val})
        elif st != 'ok':
            rep.trouble(val)
        else:
            traces.append(val[0])
            seen[a[0]] = val[1]
    probes = []
    for i, t in enumerate([t for t in traces if len(t['out']) > 30 and not t['failed']][::25][:24]):
        p = copy.deepcopy(t)
        p['id'] += 10 ** 8
        solid = [k for k, c in enumerate(p['out']) if c > 32 and c != 160]
        if i % 3 == 0:
            p['out'] = p['out'][:solid[-1]] + p['out'][solid[-1] + 1:]
        elif i % 3 == 1:
            p['out'].append(ord('~'))
        else:
            p['out'] = [ord('~')] + p['out']
        probes.append(p)
    for k in range(0, len(traces), 2500):
        bad, r = tlc.validate('FormatTrace', traces[k:k + 2500] + (probes if not k else []))
        rep.tlc(r)
        if not k:
            rep.probed(probes, bad, 10 ** 8)
        for i, (clause, pos) in sorted(bad.items()):
            if i in seen:
                rep.violation(clause, dict(seen[i], id=i, token=pos))
    for x in seen.values():
        for o in x['options']:
            rep.add('option_' + o)
    rep.add('traces_validated_against_impl', len(traces))
    for i in (0, len(traces) // 2, len(traces) - 1):
        rep.sample(seen[traces[i]['id']])
