"""Runs the check of every seeded change (or of the ids given) against a scratch copy with the change applied."""
import json
import os
import shutil
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if '=' not in a] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
over = dict(a.split('=') for a in sys.argv[1:] if '=' in a)
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    prop = over.get('prop') or json.load(open(os.path.join(d, 'meta.json')))['property']
    work = '/tmp/runseed_%d' % os.getpid()
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    subprocess.run(['git', '-C', work, 'apply', os.path.join(d, 'patch.diff')], check=True)
    r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), prop], capture_output=True, text=True, cwd=ROOT,
                       env=dict(os.environ, VERIF_REPO=work))
    hit = [l for l in r.stdout.splitlines() if l.startswith('# %s:' % prop)]
    print('%-28s %s %s %s' % (i, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'BROKEN %d' % r.returncode), sorted(set(hit))[:3] or r.stdout[-300:] + r.stderr[-300:]), flush=True)
    shutil.rmtree(work, ignore_errors=True)
