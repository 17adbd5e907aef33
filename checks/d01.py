"""D01 a pooled connection has one owner and the pool respects its limits"""
import copy

import par
import pooled
import tlc


def corrupt(t, k):
    """a connection somebody else has, or a refusal below the limit"""
    t = copy.deepcopy(t)
    t['id'] += 10 ** 8
    gets = [o for o in t['op'] if o['k'] == 'get' and o['o'] == 'ok' and not o['sh']]
    if len(gets) < 3 or t['op'][-1]['k'] != 'rest':
        return None
    p, t['cfg']['prop'] = t['cfg']['prop'], t['cfg']['prop']
    if p == 'D01' and k % 2 and t['cfg']['maxconnections'] != 1:
        gets[-1]['c'] = gets[-2]['c']         # taken one after the other in the end, without a return in between
    elif p == 'D02':
        gets[-1]['begun'] = True
    else:
        gets[-1]['o'] = 'toomany'
    return t


def check(rep, prop='D01'):
    n = 1600 if not rep.thorough else 24000
    args = [(rep.seed, i, prop) for i in range(n)]
    traces, info = [], {}
    for a, (st, val) in zip(args, par.pmap(pooled.one, args)):
        if st == 'repo':
            rep.violation('exception', {'seed': a[0], 'id': a[1], 'exception': val})
            continue
        if st != 'ok':
            rep.trouble(val)
            continue
        tr, conf, switches = val
        rep.add('context_switches', switches)
        if 'stuck' in tr:
            if prop == 'D03':
                rep.violation('stuck', {'seed': a[0], 'id': a[1], 'configuration': conf, 'waiting': tr['stuck']})
            continue
        traces.append(tr)
        info[a[1]] = (conf, tr)
    probes = [p for p in (corrupt(t, i) for i, t in enumerate(traces[::max(1, len(traces) // 60)])) if p]
    bad, r = tlc.validate('PoolTrace', traces + probes, search=True)
    rep.tlc(r)
    rep.add('traces_validated_against_impl', len(traces))
    rep.probed(probes, bad, 10 ** 8)
    for t in traces:
        for o in t['op']:
            rep.add('op_%s_%s' % (o['k'], o['o'] or 'waiting'))
    for i in sorted(info)[:2]:
        rep.sample({'configuration': info[i][0], 'operations': [o['k'] for o in info[i][1]['op']]})
    for i, (clause, pos) in sorted(bad.items()):
        if i in info:
            conf, tr = info[i]
            evs = [dict({k: v for k, v in tr['op'][e['n'] - 1].items() if v not in ('', 0, False)}, n=e['n'],
                        at='call' if e['call'] else 'answer') for e in tr['ev'][:pos + 1]]
            rep.violation(clause, {'id': i, 'configuration': conf, 'event': pos, 'events': evs})
