"""D03 blocked connection requests are always served"""
from concurrent.futures import ThreadPoolExecutor

import d01
import tlc

CFG = """SPECIFICATION Spec
CONSTANTS N = %d Rounds = %d Faults = %d MaxCon = %d MaxShared = %d MaxCached = %d Blocking = %s Wake = "%s" Keep = %s Late = %s
INVARIANTS Agrees Limited Owned NoneForgotten
PROPERTIES AllServed
"""
T, F = 'TRUE', 'FALSE'
QUICK = [(4, 1, 0, 2, 1, 1, T), (3, 2, 1, 1, 1, 0, T), (3, 2, 1, 1, 0, 1, T), (3, 1, 1, 2, 1, 1, F), (3, 1, 1, 0, 2, 1, T)]
DEEP = [(3, 2, 1, 2, 1, 1, T), (3, 2, 1, 2, 1, 1, F), (3, 2, 1, 0, 2, 1, T), (4, 1, 1, 2, 2, 2, T), (4, 2, 1, 1, 1, 1, T), (5, 1, 1, 2, 1, 1, T)]
# one sleeper woken for a return; a failed connect keeps its place; the lock given away in between
BROKEN = [(4, 1, 0, 2, 1, 1, T, 'one', F, F), (3, 2, 1, 1, 0, 1, T, 'all', T, F), (3, 2, 1, 1, 1, 0, F, 'all', F, T)]


def check(rep):
    # the waiting protocol by itself: every interleaving of the clients
    with ThreadPoolExecutor(4) as pool:
        right = [pool.submit(tlc.model, 'PoolDesign', CFG % (c + ('all', F, F)), workers=2, heap='3g') for c in QUICK + (DEEP if rep.thorough else [])]
        wrong = [pool.submit(tlc.broken, 'PoolDesign', CFG % c, workers=2, heap='3g') for c in BROKEN]
        for f in right:
            r = f.result()
            rep.tlc(r)
            rep.add('states_of_the_protocol', r.distinct)
        for f in wrong:
            f.result()
            rep.add('broken_protocols_rejected', 1)
    d01.check(rep, 'D03')
