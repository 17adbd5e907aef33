"""D05 usage limits and session preparation are honoured"""
import copy

import d04


def corrupt(t, k):
    """a driver connection that was closed once more, or never"""
    t = copy.deepcopy(t)
    t['id'] += 10 ** 8
    cl = [i for i, e in enumerate(t['ev']) if e['d'] == 'close']
    if not cl:
        return None
    if k % 2:
        t['ev'].insert(cl[-1], dict(t['ev'][cl[-1]]))
    else:
        del t['ev'][cl[-1]]
    return t


def check(rep):
    d04.check(rep, 'D05', corrupt)
