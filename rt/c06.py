from util import *
from plycutter.geometry.impl2d import primitive2d as p2, scan2d as s2

RULE = 'all segment pairs on a 3x3 grid, then random rationals with ' \
    'frequent touching, vertical, horizontal and degenerate configurations'
BOUNDS = '3x3 grid exhaustively for segment pairs and points'


def rp(rng, n=4):
    if rng.random() < .5:
        return [S(rng.randint(-3, 3)), S(rng.randint(-3, 3))]
    return [rq(rng, n), rq(rng, n)]


def cases(rng, tier):
    g = [[S(x), S(y)] for x in range(3) for y in range(3)]
    for a in g:
        for b in g:
            for p in g:
                yield {'k': 'frac', 'a': [a, b], 'p': p}
            for y in ('0', '1/2', '1', '2', '3', '-1'):
                yield {'k': 'aty', 'a': [a, b], 'y': y}
    for a in g:
        for b in g:
            for c in g:
                for d in g:
                    if a != b and c != d:
                        yield {'k': 'seg', 'a': [a, b], 'b': [c, d]}
                        yield {'k': 'general', 'a': [a, b], 'b': [c, d]}
    while True:
        a, b = [rp(rng), rp(rng)], [rp(rng), rp(rng)]
        if rng.random() < .4:
            k = mpq(rng.randint(-2, 6), rng.choice([2, 3, 4]))
            A = [P(v) for v in a]
            b[0] = [S(A[0][i] + k * (A[1][i] - A[0][i])) for i in (0, 1)]
        yield {'k': 'seg', 'a': a, 'b': b}
        yield {'k': 'general', 'a': a, 'b': b}
        yield {'k': 'frac', 'a': a, 'p': b[0]}
        yield {'k': 'frac', 'a': a, 'p': rp(rng)}
        yield {'k': 'aty', 'a': a, 'y': b[1][1]}


def det(a, b):
    return a[0] * b[1] - a[1] * b[0]


def check(c):
    a = tuple(P(v) for v in c['a'])
    da = (a[1][0] - a[0][0], a[1][1] - a[0][1])
    if c['k'] == 'aty':
        need(da[1] != 0)
        y = Q(c['y'])
        r = s2._at_y_no_horizontal(a, y)
        if (r - a[0][0]) * da[1] != da[0] * (y - a[0][1]):
            return 'at_y: %s' % r
        return None
    if c['k'] == 'frac':
        p = P(c['p'])
        r = p2.line_segment_point_fraction(a, p)
        ap = (p[0] - a[0][0], p[1] - a[0][1])
        on = (ap == (0, 0)) if da == (0, 0) else det(da, ap) == 0
        if (r is not None) != on:
            return 'fraction on/off the line: %s' % r
        if on and (p != (a[0][0] + r * da[0], a[0][1] + r * da[1]) or
                   (da == (0, 0) and r != 0)):
            return 'fraction value: %s' % r
        return None
    b = tuple(P(v) for v in c['b'])
    db = (b[1][0] - b[0][0], b[1][1] - b[0][1])
    dn = det(da, db)
    ab = (a[0][0] - b[0][0], a[0][1] - b[0][1])
    if dn != 0:
        t, u = det(db, ab) / dn, det(da, ab) / dn
        pt = (a[0][0] + t * da[0], a[0][1] + t * da[1])
    if c['k'] == 'general':
        need(dn != 0)
        r = p2.segment_segment_general_intersection(a, b)
        if tuple(r[0]) != pt or r[1] != t or r[2] != u:
            return 'general intersection: %s' % (r,)
        return None
    r = s2._nonparallel_intersection_point(a, b)
    exp = None
    if dn != 0 and 0 <= t <= 1 and 0 <= u <= 1:
        exp = pt
    if (None if r is None else tuple(r)) != exp:
        return 'segment intersection: %s expected %s' % (r, exp)
    return None
