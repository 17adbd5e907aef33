import json, glob, sys
for f in sorted(glob.glob('/verif/evidence/replay_%s_*.json' % sys.argv[1])):
    j = json.load(open(f)); d = j['detail']
    if 'statement' not in d:
        print(json.dumps(d, ensure_ascii=False)[:3000]); continue
    print(j['clause'], '|', d['statement'], '|', d['error'], '|', d['observed'].get('res'), d['observed'].get('aggs'), d['event'], d['id'])
    print('   ', '\n    '.join(d['statements'][:5]))
