"""C01 symmetric ciphers are faithful, deterministic and key-separated"""
import copy

import cryptcalls as crypt
import par
import tlc


def corrupt(t, k):
    """another ciphertext, another decryption"""
    t = copy.deepcopy(t)
    t['id'] += 10 ** 8
    ev = t['ev']
    for i in sorted(range(len(ev)), key=lambda i: (i + k) % len(ev)):
        e = ev[i]
        if e['o'] != 'ok':
            continue
        if e['d'] == 'dec':
            e['t'] += '61'
            return t
        if e['d'] == 'fuzzy':
            e['qc'], e['pc'] = e['cc'] + [65], e['tc'][:2]
            return t
        if e['d'] == 'oenc' and k % 2:
            e['c'] = t['cfg']['ilo'] if len(t['cfg']['ohi']['m']) < 4 else {'s': 1, 'm': [1] * 30}
            e['p'] = {'s': 1, 'm': [3] * 30}
            return t
        if e['d'] == 'odec' and any(x['d'] == 'oenc' and x['c'] == e['c'] for x in ev[:i]):
            e['o'] = 'err'
            return t
        if e['d'] == 'decode' and len(e['v']['m']) < 11:
            e['w'] = {'s': 1, 'm': [5] * 30}
            return t
        if e['d'] == 'combine':
            e['r'] = {'s': 1, 'm': [5] * 60}
            return t
    return None


def check(rep, prop='C01'):
    quick = {'C01': 900, 'C02': 540, 'C03': 600, 'C04': 400, 'C05': 500}[prop]
    n = quick if not rep.thorough else quick * 15
    args = [(prop, i, rep.seed) for i in range(n)]
    traces = []
    for a, (st, val) in zip(args, par.pmap(crypt.one, args)):
        if st == 'repo':
            rep.violation('exception', {'id': a[1], 'exception': val})
        elif st != 'ok':
            rep.trouble(val)
        else:
            traces.append(val)
    shown = {}
    for t in traces:
        shown[t['id']] = [dict(e) for e in t['ev']]
        for e in t['ev']:
            rep.add('calls_%s_%s' % (e['d'], e['o']))
            e.pop('n', None)
            e.pop('x', None)
    probes = [p for p in (corrupt(t, i) for i, t in enumerate(traces[::max(1, len(traces) // 40)])) if p]
    for k in range(0, len(traces), 3000):
        part = traces[k:k + 3000]
        bad, r = tlc.validate('CryptoTrace', part + (probes if not k else []))
        rep.tlc(r)
        if not k:
            rep.probed(probes, bad, 10 ** 8)
        for i, (clause, pos) in sorted(bad.items()):
            if i in shown:
                rep.violation(clause, {'id': i, 'event': pos, 'calls': [
                    {k: v for k, v in e.items() if k not in ('tc', 'cc', 'pc', 'qc', 'p', 'v', 'w', 'r') and v not in ('', [], False)} for e in shown[i][:pos]][-6:]})
    rep.add('traces_validated_against_impl', len(traces))
    for t in traces[:2]:
        rep.sample([{k: v for k, v in e.items() if k in ('d', 'o', 'n', 't', 'k')} for e in shown[t['id']][:4]])
