"""Outcome of a check: evidence file, VIOLATION and KNOWN-FINDING lines, exit status."""
import glob
import json
import os
import sys
import time
import traceback

import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
FINDINGS = os.path.join(ROOT, 'known_findings.json')


def findings(prop):
    with open(FINDINGS) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == prop]


class Report:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        for f in glob.glob(os.path.join(EVID, "replay_%s_*.json" % prop)):
            os.unlink(f)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.broken = []        # what went wrong in the machinery itself: no verdict, unless a violation was found all the same

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def tlc(self, r):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, cap=5):
        if len(self.cov['samples']) < cap:
            self.cov['samples'].append(s)

    def trouble(self, what):
        self.broken.append(what)

    def probed(self, probes, bad, off, left=()):
        """corrupted copies (their ids are larger by off) of traces that were accepted must be rejected; left: ids of traces
        that were left undecided"""
        self.add('corrupted_traces_rejected', len(probes))
        for p in probes:
            if not {p['id'], p['id'] - off} & (set(bad) | set(left)):
                self.trouble('a corrupted trace was accepted: %d' % (p['id'] - off))

    def violation(self, clause, detail):
        """detail: JSON-serialisable description that lets a reader replay the failure"""
        for f in findings(self.prop):
            if f.get('match') and match(f['match'], clause, detail):
                if f['what'] not in self.known:
                    self.known.append(f['what'])
                return
        if len(self.viol) < 5:
            os.makedirs(EVID, exist_ok=True)
            path = os.path.join(EVID, 'replay_%s_%d.json' % (self.prop, len(self.viol) + 1))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'clause': clause, 'seed': self.seed, 'detail': detail}, f, indent=1,
                          default=repr, ensure_ascii=False)
            self.viol.append((clause, path))
        else:
            self.viol.append((clause, self.viol[0][1]))

    def finish(self):
        if self.broken and not self.viol:
            raise tlc.Machinery('\n'.join(self.broken[:3]))
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr, ensure_ascii=False)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for clause, path in self.viol[:5]:
            print('# %s: %s' % (self.prop, clause))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        short = {k: v for k, v in self.cov.items() if k != 'samples'}
        print('%s %s: %s, %.1f s' % (self.prop, 'VIOLATED (%d)' % len(self.viol) if self.viol else 'held', short,
                                     time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.viol else 0


def match(pattern, clause, detail):
    """a finding names the clause and a text its failing statement contains"""
    if pattern.get('clause') not in (None, clause):
        return False
    text = json.dumps(detail, default=repr, ensure_ascii=False)
    return all(s in text for s in pattern.get('contains', [' never ']))


def guarded(rep, what, fn, *a, **k):
    """Runs fn; an exception that comes out of the code under test is a violation of `what`."""
    try:
        return fn(*a, **k)
    except Exception as e:                          # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        if any(fr.filename.startswith(os.environ.get('VERIF_REPO', '/repo')) for fr in tb):
            rep.violation(what, {'exception': repr(e), 'trace': [str(x) for x in tb[-6:]]})
            return None
        raise
