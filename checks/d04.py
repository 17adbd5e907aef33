"""D04 failover never replays or hides work of a transaction"""
import copy
import gc
import importlib
import os
import sys

import par
import steady
import tlc


def job(*a):
    repo = os.environ.get('VERIF_REPO', '/repo')
    if repo not in sys.path:
        sys.path.insert(0, repo)
    sys.modules['steady_db'] = importlib.import_module('dbutils.steady_db')
    gc.freeze()
    return steady.explore(*a)


def corrupt(t, k):
    """the answer to a statement is another one, or an error of the driver is hidden"""
    t = copy.deepcopy(t)
    t['id'] += 10 ** 8
    rets = [(i, e) for i, e in enumerate(t['ev']) if e['what'] == 'ret' and i and t['ev'][i - 1]['what'] == 'driver']
    for i, e in rets[k % len(rets):] if rets else ():
        last = t['ev'][i - 1]
        if e['o'] == 'ok' and last['d'] == 'exec' and e['v']:
            e['v'] += 1
            return t
        if e['o'] == 'err' and last['o'] != 'ok' and last['d'] in ('exec', 'commit'):
            e.update(o='ok', e=0, own=False)
            return t
    return None


def check(rep, prop='D04', corrupt=corrupt):
    n = 100 if not rep.thorough else 1200
    args = [(rep.seed, i, prop, 5 + i % 4, 2, 60) for i in range(n // 2)] + \
           [(rep.seed, i, prop, 8 + i % 14, 3, 25) for i in range(n // 2, n)]
    traces, info = [], {}
    for a, (st, val) in zip(args, par.pmap(job, args)):
        if st == 'repo':
            rep.violation('exception', {'seed': a[0], 'id': a[1], 'exception': val})
            continue
        if st != 'ok':
            rep.trouble(val)
            continue
        for tr, conf, sc, plan in val:
            if 'exception' in tr:
                rep.violation('exception', {'script': sc, 'configuration': conf, 'faults': plan, 'exception': tr['exception']})
                continue
            traces.append(tr)
            info[tr['id']] = (conf, sc, plan)
            rep.add('faults_injected', len(plan))
    probes = [p for p in (corrupt(t, i) for i, t in enumerate(traces[::max(1, len(traces) // 60)])) if p]
    bad, r = tlc.validate('SteadyTrace', traces + probes)
    rep.tlc(r)
    other = [int(x.split(',')[0]) for t, x in r.printed() if t == 'OTHER']
    rep.cov['left_to_the_other_property'] = len([i for i in other if i in info])
    rep.add('traces_validated_against_impl', len(traces))
    rep.probed(probes, bad, 10 ** 8, other)
    for t in traces:
        for e in t['ev']:
            if e['what'] == 'driver':
                rep.add('driver_%s_%s' % (e['d'], e['o']))
            elif e['what'] == 'ret':
                rep.add('answers_' + e['o'])
    byid = {t['id']: t for t in traces}
    for i in sorted(info)[:2]:
        rep.sample({'script': info[i][1], 'configuration': info[i][0], 'faults': info[i][2]})
    for i, (clause, pos) in sorted(bad.items()):
        if i in info:
            conf, sc, plan = info[i]
            rep.violation(clause, {'script': sc, 'configuration': conf, 'faults': plan, 'event': pos,
                                   'events': [{k: v for k, v in e.items() if v not in ('', 0, False)} for e in byid[i]['ev'][:pos]]})
