"""C04 (see c01.py)"""
import c01


def check(rep):
    c01.check(rep, 'C04')
