"""Statement-level properties: histories of the real proxy validated against EulerDB.tla."""
import copy
import random

import gen as G
import hist as H
import par
import tlc
import world as W


def one(profile, seed, id, world=W.World, history=H.History):
    """Runs one history; returns (trace, sqls)"""
    rnd = random.Random('%s/%s/%d' % (profile.__name__, seed, id))
    with world(shuffle=random.Random(seed * 1000003 + id)) as w, W.silence():
        w.server.add_db('points')
        w.boot()
        h = history(w, id)
        profile(h, G.Gen(rnd), rnd)
        return h.finish(), [s for s, _ in h.sqls], [e['err'] for e in h.events]


def run(rep, jobs, **kw):
    """jobs: [(profile, number of histories)]"""
    args = []
    for profile, n in jobs:
        args += [(profile, rep.seed, len(args) + i) + tuple(kw.values()) for i in range(n)]
    results = par.pmap(one, args, chunk=2)
    traces, info = [], {}
    for a, (st, val) in zip(args, results):
        if st == 'ok':
            traces.append(val[0])
            info[a[2]] = (a[0].__name__, val[1], val[2], val[0])
        elif st == 'repo':
            rep.violation('exception', {'profile': a[0].__name__, 'seed': a[1], 'id': a[2], 'exception': val})
        else:
            rep.trouble('history %s/%s: %s' % (a[0].__name__, a[2], val))
    judge(rep, traces, info)


def corrupt(t, k):
    """the history with one observed value changed: the specification must reject it"""
    t = copy.deepcopy(t)
    t['id'] += 10 ** 6
    evs = [e for e in t['ev'] if e['status'] == 'ok' and (e.get('res') or e.get('aggs') or any(x['rows'] for x in e['store']))]
    if not evs:
        evs = [e for e in t['ev'] if e['nsent']]
        if evs:
            evs[k % len(evs)]['seen'].append({'what': 'literal', 'pos': 'symmetric', 'cls': 'number'})
            return t
        return None
    e = evs[k % len(evs)]
    if e.get('res'):
        row = e['res'][k % len(e['res'])]
        row[k % len(row)] = H.UNKNOWN
    elif e.get('aggs'):
        e['aggs'][k % len(e['aggs'])].update(v=H.UNKNOWN, b=H.big(10 ** 60), null=False)
    else:
        rows = [x for x in e['store'] if x['rows']][0]['rows']
        cell = rows[k % len(rows)][0]
        cell[k % len(cell)] = H.UNKNOWN
    return t


def judge(rep, traces, info):
    probes = [p for p in (corrupt(t, t['id']) for t in traces[:40]) if p]
    bad, r = tlc.validate('EulerTrace', traces + probes)
    rep.tlc(r)
    rep.add('traces_validated_against_impl', len(traces))
    rep.add('client_statements', sum(len(t['ev']) for t in traces))
    rep.probed(probes, bad, 10 ** 6)
    for t in traces:
        for e in t['ev']:
            rep.add('op_' + e['op'] + ('' if e['status'] == 'ok' else '_err'))
            for x in e['seen']:
                rep.add('seen_%s_%s' % (x['cls'], x['pos']))
    for i in sorted(info)[:2]:
        rep.sample({'profile': info[i][0], 'statements': info[i][1][:12]})
    for i, (clause, pos) in sorted(bad.items()):
        if i not in info:
            continue
        name, sqls, errs, tr = info[i]
        rep.violation(clause, {'profile': name, 'id': i, 'event': pos, 'statement': sqls[pos - 1], 'error': errs[pos - 1],
                               'observed': tr['ev'][pos - 1], 'statements': sqls[:pos]})
