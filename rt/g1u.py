"""Helpers for 1D interval sets: an independent point-set oracle."""
from util import *
from plycutter.geometry.geom1d import Geom1D


def G1(iv):
    return Geom1D([[Q(a), Q(b)] for a, b in iv])


def merged(iv):
    """canonical interval list of a union of [lo, hi) intervals (oracle)"""
    iv = sorted((a, b) for a, b in iv if a < b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1]:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def inside(iv, x):
    return any(a <= x < b for a, b in iv)


def probes(*ivs):
    """finite points distinguishing every combination of the intervals"""
    e = sorted({v for iv in ivs for p in iv for v in p
                if not (isinstance(v, float) and math.isinf(v))})
    if not e:
        return [mpq(0)]
    out = [e[0] - 1]
    for a, b in zip(e, e[1:]):
        out += [a, (a + b) / 2]
    return out + [e[-1], e[-1] + 1]


def qiv(iv):
    return [(Q(a), Q(b)) for a, b in iv]


def canonical(iv):
    """why the interval list is not canonical, or None"""
    for a, b in iv:
        for v in (a, b):
            if isinstance(v, float) and not math.isinf(v):
                return 'inexact end point %r' % v
        if not a < b:
            return 'empty interval (%s, %s)' % (a, b)
    for (a, b), (c, d) in zip(iv, iv[1:]):
        if not b < c:
            return 'not separated: %s %s' % ((a, b), (c, d))
    return None


def riv(rng, n=4, inf=.12):
    k = rng.randint(0, n)
    out = []
    for _ in range(k):
        if rng.random() < .6:
            a, b = mpq(rng.randint(-4, 4)), mpq(rng.randint(-4, 4))
        else:
            a, b = mpq(rq(rng, 5)), mpq(rq(rng, 5))
        if a > b:
            a, b = b, a
        a, b = S(a), S(b)
        if rng.random() < inf:
            a = '-inf'
        if rng.random() < inf:
            b = 'inf'
        out.append([a, b])
    return out


def small():
    """every set of <= 2 intervals over -inf, 0, 1, 2, inf"""
    v = ['-inf', '0', '1', '2', 'inf']
    one = [[v[i], v[j]] for i in range(5) for j in range(i, 5)
           if not (i == j and i in (0, 4))]
    yield []
    for a in one:
        yield [a]
    for a in one:
        for b in one:
            yield [a, b]
    # doubly infinite degenerate intervals
    yield [['inf', 'inf']]
    yield [['-inf', '-inf'], ['0', '1']]
