from g1u import *
from fractions import Fraction

RULE = 'all sets of at most two intervals over -inf, 0, 1, 2, inf with ' \
    'amounts from -3/2 to 3/2, inexact amounts, then random ones'
BOUNDS = 'at most 5 intervals in the random part'
RS = ['-3/2', '-1', '-1/2', '-1/4', '0', '1/4', '1/2', '1', '3/2']


def cases(rng, tier):
    for a in small():
        for r in RS:
            yield {'k': 'buffer', 'a': a, 'r': r}
        yield {'k': 'inexact', 'a': a}
    while True:
        a = riv(rng, 5)
        yield {'k': 'buffer', 'a': a, 'r': rng.choice(RS)}
        yield {'k': 'buffer', 'a': a, 'r': rq(rng, 3)}
        # amounts equal to half a gap or half an interval
        f = [v for p in qiv(a) for v in p if not math.isinf(v)]
        if len(f) > 1:
            d = abs(rng.choice(f) - rng.choice(f)) / 2
            yield {'k': 'buffer', 'a': a, 'r': S(d)}
            yield {'k': 'buffer', 'a': a, 'r': S(-d)}


def check(c):
    ia = qiv(c['a'])
    for a, b in ia:
        need(a <= b)
    g = Geom1D([list(p) for p in ia])
    m = merged(ia)
    before = list(g.intervals)
    if c['k'] == 'inexact':
        for v in (0.25, -0.25, 0.0, 1.0, math.inf, -math.inf, math.nan,
                  np.float64(0.5), 'x', None):
            try:
                r = g.buffer(v)
            except Exception:
                continue
            return 'inexact amount accepted: %r' % v
        return None
    r = Q(c['r'])
    amts = [r]
    if r.denominator == 1:
        amts += [int(r), gmpy2.mpz(r)]
    amts.append(Fraction(int(r.numerator), int(r.denominator)))
    for amt in amts:
        res = g.buffer(amt)
        bad = canonical(res.intervals)
        if bad:
            return 'not canonical: %s' % bad
        exp = merged([(a - r, b + r) for a, b in m])
        if [tuple(p) for p in res.intervals] != exp:
            return 'buffer: %s by %r gives %s' % (m, amt, res.intervals)
    if g.intervals != before:
        return 'operand modified: %s' % before
    return None


def shrink(c):
    for i in range(len(c['a'])):
        yield dict(c, a=c['a'][:i] + c['a'][i + 1:])
