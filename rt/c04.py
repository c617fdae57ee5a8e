from g1u import *
import decimal
from fractions import Fraction
from plycutter import plytypes as pt
from plycutter.geometry.impl2d.geom2d_simple_holes import \
    Geom2D_Py_Simple_Holes as G2

RULE = 'values of every numeric class (int, mpz, mpq, Fraction, bool, float, ' \
    'numpy, Decimal, text, None, containers) through both conversions, the ' \
    '1D constructor and the polygon constructor at every position'
BOUNDS = 'polygons of 3 to 7 vertices'
CL = ['int', 'mpz', 'mpq', 'Fraction', 'bool', 'float', 'npf', 'npi', 'npf32',
      'dec', 'str', 'none', 'tuple', 'list', 'mpfr', 'complex']
EXACT = ('int', 'mpz', 'mpq', 'Fraction')


def npi(n):
    need(abs(n) < 2 ** 62)
    return np.int64(n)


def mk(c, v):
    if c in ('none', 'tuple', 'list', 'str', 'complex'):
        return {'none': None, 'tuple': (1,), 'list': [1], 'str': str(v),
                'complex': 1j}[c]
    if c in ('float', 'npf', 'npf32', 'mpfr'):
        f = float(v) if v in ('inf', '-inf', 'nan') else float(mpq(v))
        return {'float': float, 'npf': np.float64, 'npf32': np.float32,
                'mpfr': gmpy2.mpfr}[c](f)
    if v in ('inf', '-inf', 'nan'):
        raise Skip()
    q = mpq(v)
    if c == 'Fraction':
        return Fraction(int(q.numerator), int(q.denominator))
    if c == 'mpq':
        return q
    need(q.denominator == 1)
    n = int(q)
    return {'int': int, 'mpz': gmpy2.mpz, 'bool': bool, 'npi': npi,
            'dec': decimal.Decimal}[c](n)


VALS = ['0', '1', '-1', '3', '1/2', '-7/3', '1/4', '123456789123456789123',
        '1/123456789123', 'inf', '-inf', 'nan', '1/10',
        '100000000000000000001/100000000000000000000']


def cases(rng, tier):
    for v in VALS:
        for c in CL:
            for f in ('FractionFromExact', 'FractionFromExactOrInf'):
                yield {'k': 'conv', 'f': f, 'v': v, 'cl': c}
            for pos in (0, 1):
                yield {'k': 'g1', 'v': v, 'cl': c, 'pos': pos}
    sq = [['0', '0'], ['0', '4'], ['5', '5'], ['4', '0']]
    tri = [['0', '0'], ['1/2', '7/3'], ['3', '0']]
    base = [sq, tri, sq[::-1], tri[::-1]]
    for b in base:
        for re in (False, True):
            yield {'k': 'poly', 'a': b, 're': re, 'cl': 'mpq', 'i': -1}
            for i in range(2 * len(b)):
                for c in CL:
                    for v in (None, '1/2', '3', '1/10', 'nan', 'inf', '1/4',
                              '20000000001/10000000000',
                              '2999999999999/1000000000000',
                              '3001/1000', '4503599627370497/2251799813685248'):
                        yield {'k': 'poly', 'a': b, 're': re, 'cl': c,
                               'i': i, 'v': v}
    while True:
        n = rng.randint(3, 7)
        b = [[rq(rng, 9), rq(rng, 9)] for _ in range(n)]
        yield {'k': 'poly', 'a': b, 're': rng.random() < .7,
               'cl': rng.choice(CL), 'i': rng.randint(-1, 2 * n - 1),
               'v': rng.choice([None, '1/2', '2', '1/3', '1/4'])}
        yield {'k': 'conv', 'f': rng.choice(['FractionFromExact',
                                             'FractionFromExactOrInf']),
               'v': rq(rng, 10 ** 9), 'cl': rng.choice(CL)}


def from_model(c):
    if c['k'] == 'conv':
        try:
            cl = CL[:6][int(c['c'])]
        except (IndexError, ValueError):
            cl = 'npf'
        yield {'k': 'conv', 'f': c['f'], 'v': c['v'], 'cl': cl}


def rational(v):
    return v.__class__ == mpq(1).__class__


def same(a, b):
    """equal as exact numbers (b may be a float of any kind)"""
    if isinstance(b, (float, np.floating, gmpy2.mpfr(0).__class__)):
        return mpq(float(b)) == a
    if isinstance(b, decimal.Decimal):
        return Fraction(int(a.numerator), int(a.denominator)) == b
    return a == b


def regular(p):
    n = len(p)
    return all(p[i] != p[(i + 1) % n] for i in range(n)) and sum(
        p[i][0] * p[(i + 1) % n][1] - p[i][1] * p[(i + 1) % n][0]
        for i in range(n)) != 0


def check(c):
    v = mk(c['cl'], c['v']) if c.get('v') else None
    if c['k'] == 'conv':
        isinf = c['v'] in ('inf', '-inf') and c['cl'] in (
            'float', 'npf', 'npf32', 'mpfr')
        ok = c['cl'] in EXACT or (isinf and c['f'].endswith('Inf'))
        try:
            r = getattr(pt, c['f'])(v)
        except Exception:
            if ok:
                return 'conversion: exact value refused %r' % v
            return None
        if not ok:
            return 'conversion: accepted %r' % v
        if r != v or (not isinf and not rational(r)):
            return 'conversion: %r became %r' % (v, r)
        return None
    if c['k'] == 'g1':
        isinf = c['v'] in ('inf', '-inf') and c['cl'] in (
            'float', 'npf', 'npf32', 'mpfr')
        ok = c['cl'] in EXACT or isinf
        lo, hi = (v, math.inf) if c['pos'] == 0 else (-math.inf, v)
        try:
            r = Geom1D([[lo, hi]])
        except Exception:
            return 'interval: exact end refused %r' % v if ok else None
        if not ok:
            return 'interval: accepted %r' % v
        if lo != hi and [tuple(i) for i in r.intervals] != [(lo, hi)]:
            return 'interval: %r became %r' % ((lo, hi), r.intervals)
        return None
    pts = [[Q(x) for x in p] for p in c['a']]
    i = c['i']
    bad = None
    if i >= 0:
        if c.get('v') is None:
            q = pts[i // 2][i % 2]
            v = mk(c['cl'], S(q))
        pts[i // 2][i % 2] = v
        if c['cl'] in ('none', 'str', 'tuple', 'list', 'complex'):
            bad = 'not a number'
        elif c['cl'] in ('float', 'npf', 'npf32', 'mpfr', 'dec'):
            if not (math.isfinite(float(v)) and float(v) == int(v)):
                bad = 'inexact'
    given = [list(p) for p in pts]
    try:
        r = G2.polygon(pts, reorient=c['re'])
    except Exception:
        if i < 0 and c['re'] and regular(given):
            return 'polygon: exact polygon refused %s' % pts
        return None
    if bad:
        return 'polygon: accepted %r (%s)' % (v, bad)
    out = r.spwhs[0].outer
    if len(r.spwhs) != 1 or len(out) != len(given) or len(
            r.spwhs[0].holes):
        return 'polygon: different shape %s from %s' % (out, given)
    for cand in ([given, given[::-1]] if c['re'] else [given]):
        if all(rational(x) and same(x, y) for p, g in zip(out, cand)
               for x, y in zip(p, g)):
            return None
    return 'polygon: coordinates changed: %s from %s' % (out, given)
