"""Shared helpers of the run-time contracts (exact arithmetic oracles)."""
import itertools
import math
import random
from fractions import Fraction as Fr
import gmpy2
import numpy as np
from run import Skip

mpq = gmpy2.mpq


def Q(s):
    """case number -> mpq / infinity"""
    if isinstance(s, str):
        if s == 'inf':
            return math.inf
        if s == '-inf':
            return -math.inf
        if s == 'nan':
            raise Skip()
        return mpq(s)
    if isinstance(s, float) and math.isinf(s):
        return s
    return mpq(s)


def P(p):
    return (Q(p[0]), Q(p[1]))


def S(x):
    """number -> case text"""
    if isinstance(x, float):
        return 'inf' if x > 0 else '-inf'
    x = mpq(x)
    return str(x)


def rq(rng, n=6, dens=(1, 1, 1, 2, 3, 4, 7)):
    d = rng.choice(dens)
    return S(mpq(rng.randint(-n * d, n * d), d))


def need(c):
    if not c:
        raise Skip()
