"""S03 splitting and tokenising SQL text is lossless"""
import copy

import par
import scripts
import tlc

CFG = """SPECIFICATION Spec
CONSTANTS Room = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def check(rep):
    got, r = tlc.behaviours('Script', CFG % (7 if rep.thorough else 6, 'CutsAreTopLevel WellFormed Report'))
    rep.tlc(r)
    got.sort(key=str)
    rep.add('scripts_enumerated', len(got))
    long, r = tlc.behaviours('Script', CFG % (45, 'Report'), simulate=(15000 if rep.thorough else 1500, 700, rep.seed))
    rep.add('random_derivations', len(long))
    scr = [x['o'] for x in got] + [x['o'] for x in long if len(x['o']) < 150]
    want = [x['c'] for x in got] + [x['c'] for x in long if len(x['o']) < 150]
    n = len(scr)
    args = [(i, k, rep.seed) for i, k in enumerate(scr)]
    garb = [(n + i, rep.seed) for i in range(6000 if rep.thorough else 800)]
    traces = []
    for a, (st, val) in list(zip(args, par.pmap(scripts.record, args))) + list(zip(garb, par.pmap(scripts.garbage, garb))):
        if st == 'repo':
            rep.violation('exception', {'id': a[0], 'kinds': a[1], 'exception': val})
        elif st != 'ok':
            rep.trouble(val)
        else:
            traces.append(val)
    probes = []
    for i, t in enumerate([t for t in traces if t['o'] and len(t['cuts']) > 1][::25][:12]):
        p = copy.deepcopy(t)
        p['id'] += 10 ** 8
        if i % 3 == 0:
            p['cuts'].pop(0)
        elif i % 3 == 1:
            p['toks'].pop()
        else:
            p['stmts'][0].pop(0)
        probes.append(p)
    texts = {}
    for t in traces:
        texts[t['id']] = (''.join(map(chr, t['text'])), [''.join(map(chr, s)) for s in t['stmts']], t['o'])
    for k in range(0, len(traces), 4000):
        bad, r = tlc.validate('ScriptTrace', traces[k:k + 4000] + (probes if not k else []))
        rep.tlc(r)
        if not k:
            rep.probed(probes, bad, 10 ** 8)
        for i, (clause, pos) in sorted(bad.items()):
            if i in texts:
                rep.violation(clause, {'id': i, 'text': texts[i][0], 'statements': texts[i][1], 'kinds': texts[i][2],
                                       'cuts': want[i] if i < n else []})
    rep.add('traces_validated_against_impl', len(traces))
    for i in (n // 2, n // 3, n + 1):
        rep.sample(texts[i][0])
