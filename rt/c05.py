from util import *
from plycutter.geometry.impl2d import frangle2d as m

RULE = 'all small vectors and pairs, then random rationals'
BOUNDS = 'integer vectors up to 5 in each direction exhaustively'


def half(x, y):
    return 0 if y < 0 or (y == 0 and x > 0) else 1


def before(a, b):
    ha, hb = half(*a), half(*b)
    return ha < hb or (ha == hb and a[0] * b[1] - a[1] * b[0] < 0)


def cases(rng, tier):
    g = [(x, y) for x in range(-5, 6) for y in range(-5, 6) if x or y]
    for a in g:
        yield {'k': 'rot', 'a': [S(a[0]), S(a[1])]}
    for i in range(-40, 80):
        yield {'k': 'trip', 'f': S(mpq(i, 5))}
        yield {'k': 'trip', 'f': S(mpq(i, 4))}
    for a in g:
        for b in g:
            yield {'k': 'order', 'a': [S(a[0]), S(a[1])],
                   'b': [S(b[0]), S(b[1])]}
    while True:
        a = [rq(rng, 9), rq(rng, 9)]
        b = [rq(rng, 9), rq(rng, 9)]
        if rng.random() < .3:
            k = mpq(rng.randint(1, 9), rng.randint(1, 9))
            b = [S(Q(a[0]) * k), S(Q(a[1]) * k)]
        yield {'k': 'order', 'a': a, 'b': b}
        yield {'k': 'rot', 'a': a}
        yield {'k': 'trip', 'f': rq(rng, 30)}


def check(c):
    if c['k'] == 'order':
        a, b = P(c['a']), P(c['b'])
        need(any(a) and any(b))
        fa, fb = m.vector_frangle(a), m.vector_frangle(b)
        for f in (fa, fb):
            if not 0 <= f < 8:
                return 'range: %s' % f
        if (fa < fb) != before(a, b) or (fb < fa) != before(b, a):
            return 'order: %s %s' % (fa, fb)
    elif c['k'] == 'rot':
        a = P(c['a'])
        need(any(a))
        f = m.vector_frangle(a)
        if (m.vector_frangle((a[1], -a[0])) - f - 2) % 8 != 0:
            return 'rotation by 90 degrees: %s' % f
        if (m.vector_frangle((-a[0], -a[1])) - f - 4) % 8 != 0:
            return 'rotation by 180 degrees: %s' % f
    else:
        f = Q(c['f'])
        v = m.frangle_unit_square_vector(f)
        if max(abs(v[0]), abs(v[1])) != 1:
            return 'unit square: %s' % (v,)
        if (m.vector_frangle(v) - f) % 8 != 0:
            return 'round trip: %s' % (v,)
    return None
