#!/usr/bin/env python3
"""python check.py <property id>: runs the check of one property (tier and seed from the environment)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    env = os.environ
    if env.get('PYTHONHASHSEED') != '0' or os.path.realpath(sys.executable) != os.path.realpath(PY) or 'VERIF_IN' not in env:
        e = dict(env, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_IN='1')
        e.pop('PYTHONPATH', None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], e)
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
    prop = sys.argv[1]
    import report
    rep = report.Report(prop)
    mod = importlib.import_module(prop.lower())
    try:
        mod.check(rep)
    except Exception:                           # noqa: BLE001
        if not rep.viol:
            raise
        traceback.print_exc()
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
