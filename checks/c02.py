"""C02 order-preserving encryption is strictly monotone and invertible"""
import c01
import tlc

CFG = """SPECIFICATION Spec
CONSTANTS MaxIn = %d MaxOut = %d
INVARIANTS Fits Once Increasing InRange Inverts Total
CHECK_DEADLOCK FALSE
"""


def check(rep):
    # the algorithm, for every outcome of its sampler
    r = tlc.model('OpeDesign', CFG % ((6, 13) if not rep.thorough else (8, 16)))
    rep.tlc(r)
    rep.add('states_of_the_algorithm', r.distinct)
    c01.check(rep, 'C02')
