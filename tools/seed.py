"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms the change.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and, after a line '# DEMO', the
demonstration: a program that runs with cwd = the repository and exits non-zero when the property is broken.
`proxy` demos find world.py, mysqlsim.py and the stubs beside them in sim/.
usage: seed.py [id ...]
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, 'tools', 'seeds')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build(sid):
    src = open(os.path.join(SEEDS, sid + '.py')).read()
    head, demo = src.split('# DEMO\n', 1)
    d = {}
    exec(head, d)
    out = os.path.join(ROOT, 'seeded', sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    work = '/tmp/seed_work_%d' % os.getpid()
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    for f, old, new in d['EDITS']:
        p = os.path.join(work, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
        base = sh('git -C /repo show 6a683e0:%s' % f).stdout
        if not any(l.strip() and l.strip() not in new and l in base.splitlines() for l in old.splitlines()):
            print('   warning: no original line is removed in', f)
    patch = sh('git -C %s diff' % work).stdout
    open(os.path.join(out, 'patch.diff'), 'w').write(patch)
    if 'world' in demo:
        sim = os.path.join(out, 'sim')
        os.makedirs(sim)
        for f in ('mysqlsim.py', 'world.py') + (('httpworld.py',) if 'httpworld' in demo else ()):
            shutil.copy(os.path.join(ROOT, 'lib', f), sim)
        shutil.copytree(os.path.join(ROOT, 'lib', 'stubs'), os.path.join(sim, 'stubs'),
                        ignore=shutil.ignore_patterns('__pycache__'))
    if 'fakedb' in demo:
        sim = os.path.join(out, 'sim')
        os.makedirs(sim, exist_ok=True)
        for f in ('fakedb.py', 'sched.py'):
            shutil.copy(os.path.join(ROOT, 'lib', f), sim)
    open(os.path.join(out, 'demo.py'), 'w').write(PRE + demo)
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# cwd: the repository\nVERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 '
                'exec %s "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    ok = sh('bash %s/demo.sh' % out, cwd='/repo')
    bad = sh('bash %s/demo.sh' % out, cwd=work)
    ap = sh('git -C /repo apply --check %s/patch.diff' % out)
    # the stable tests need /repo: apply there for a moment
    t = ''
    if '--test' in sys.argv:
        sh('git -C /repo apply %s/patch.diff' % out)
        sh('bash /opt/vp/test.sh /tmp/seed_test.json')
        sh('git -C /repo checkout -- .')
        res = json.load(open('/tmp/seed_test.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = set(base.get('stable', base.get('passed', [])))
        t = 'tests lost: %s' % sorted(stable - set(res['passed']))
    shutil.rmtree(work, ignore_errors=True)
    good = ok.returncode == 0 and bad.returncode != 0 and ap.returncode == 0
    print(sid, 'OK' if good else 'NOT OK (%d/%d/%d)\n%s\n%s' % (ok.returncode, bad.returncode, ap.returncode, ok.stdout[-900:] + ok.stderr[-900:], bad.stderr[-500:]), t)


PRE = '''import os
import sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'), os.getcwd()]


def expect(what, got, want):
    if got != want:
        print('%s: got %r, expected %r' % (what, got, want))
        sys.exit(1)


'''

if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-3] for f in os.listdir(SEEDS) if f.endswith('.py'))
    for i in ids:
        build(i)
