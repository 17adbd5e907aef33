"""Runs TLC and reads what it printed."""
import os
import re
import json
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """The check itself is broken (not the code under test)."""


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m[-1]) if m else 0

    def printed(self):
        """tuples printed with PrintT(<<"TAG", ...>>)"""
        # TLC may break long tuples over several lines
        flat = re.sub(r'\n\s+', ' ', self.out)
        return re.findall(r'^<<\s*"([A-Z]+)",\s*(.*?)\s*>>$', flat, re.M)

    @property
    def violated(self):
        m = re.search(r'(?:Invariant|Action property|Temporal property) (\S+) is violated|Temporal properties were violated'
                      r'|Deadlock reached|Assumption line (\d+)', self.out)
        if not m:
            return None
        return m.group(1) or (('assumption line ' + m.group(2)) if m.group(2) else m.group(0))


def run(module, cfg=None, env=None, workers=8, args=(), timeout=800, heap='6g', consts=None):
    """Model-checks spec/<module>.tla with spec/<cfg>.cfg (or the text `cfg` if it has newlines)."""
    tmp = tempfile.mkdtemp(prefix='verif_tlc_')
    try:
        cfg = cfg or module
        if '\n' in cfg:
            path = os.path.join(tmp, module + '_gen.cfg')
            with open(path, 'w') as f:
                f.write(cfg)
        else:
            path = os.path.join(SPEC, cfg + '.cfg')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', tmp, '-noGenerateSpecTE', '-config', path] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise Machinery('TLC timed out on %s: %s' % (module, (x.stdout or b'')[-2000:]))
        return Result(p.stdout.decode('utf8', 'replace'), p.returncode, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def model(module, cfg=None, **kw):
    """A model that must be free of errors; returns the result."""
    r = run(module, cfg, **kw)
    if 'No error has been found' not in r.out:
        raise Machinery('%s/%s: TLC reports\n%s' % (module, cfg, r.out[-3000:]))
    return r


def broken(module, cfg=None, **kw):
    """A model that must not be free of errors."""
    r = run(module, cfg, **kw)
    if not r.violated and 'The first argument of Assert evaluated to FALSE' not in r.out:
        raise Machinery('%s/%s: TLC finds nothing wrong\n%s' % (module, cfg, r.out[-3000:]))
    return r


def evaluate(module, traces, env=None, **kw):
    fd, path = tempfile.mkstemp(prefix='verif_traces_', suffix='.json')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(traces, f)
        return run(module, env=dict(env or {}, TRACES=path), **kw)
    finally:
        os.unlink(path)


def validate(module, traces, search=False, env=None, **kw):
    """Trace validation: returns ({id: (clause, position)}, result).  The verdict of every trace must be known.
    search: the specification looks for an explanation of a trace; one without has no verdict."""
    ids = [t['id'] for t in traces]
    assert len(set(ids)) == len(ids)
    if not traces:
        return {}, Result('', 0, 0)
    r = evaluate(module, traces, env, **kw)
    good, bad = set(), {}
    for tag, rest in r.printed():
        if tag == 'GOOD':
            good.add(int(rest.split(',')[0]))
        elif tag == 'BAD':
            p = rest.split(',', 2)
            bad[int(p[0])] = (p[2].strip().strip('"'), int(p[1]))
    if search and 'Model checking completed. No error' in r.out and not env:
        lost = [t for t in traces if t['id'] not in good]
        if lost:
            at = validate(module, lost, True, {'VERBOSE': '1'})[1].printed()
            for t in lost:
                bad[t['id']] = ('no sequential order', max([int(x.split(',')[1]) for k, x in at
                                                            if k == 'AT' and int(x.split(',')[0]) == t['id']] + [0]) + 1)
        return bad, r
    if search and env:
        return bad, r
    if 'Error:' in r.out and not search and 'OutOfMemory' not in r.out and 'StackOverflow' not in r.out:
        # a trace that the specification cannot even evaluate (values outside of its types) is not one of its behaviours
        part = [t for t in traces if t['id'] not in bad]
        while len(part) > 1:
            half = part[:len(part) // 2]
            part = half if 'Error:' in evaluate(module, half, env, **kw).out else part[len(part) // 2:]
        if part and 'Error:' in evaluate(module, part, env, **kw).out:
            bad[part[0]['id']] = ('outside of the specification', 0)
            return bad, r
    if good | set(bad) != set(ids) or 'Error:' in r.out:
        missing = sorted(set(ids) - good - set(bad))
        i = r.out.find('Error:')
        raise Machinery('%s: no verdict for traces %s\n%s' % (module, missing[:10], r.out[max(0, i - 200):i + 2500]))
    return bad, r


def behaviours(module, cfg, simulate=None, **kw):
    """What the model printed with PrintT(ToJson(...)): [objects], result.  simulate: (number, depth, seed) of random walks."""
    args = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(simulate[2])] if simulate else []
    r = run(module, cfg, args=args, workers=1 if simulate else 8, **kw)
    if 'Error:' in r.out or (not simulate and 'No error has been found' not in r.out):
        i = r.out.find('Error:')
        raise Machinery('%s: TLC reports\n%s' % (module, r.out[max(0, i - 200):i + 2500]))
    got = [json.loads(json.loads(x)) for x in r.out.splitlines() if x.startswith('"')]
    if not got:
        raise Machinery('%s: no behaviours\n%s' % (module, r.out[-2000:]))
    return got, r
