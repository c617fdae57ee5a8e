from util import *
from plycutter.geometry.impl2d import primitive2d as m
from plycutter.geometry.impl2d.geom2d_simple_holes import (
    Simple_Polygon_With_Holes as SPH, Geom2D_Py_Simple_Holes as G2)

RULE = 'vertex lists on a small grid with grid and half-grid points, ' \
    'polygons with holes and sets of those; then random rational ones'
BOUNDS = 'triangles and quadrilaterals on a 3 x 3 grid, points of the half ' \
    'grid, before random ones'
MIN_CASES = 4000


def shoelace(a):
    s = mpq(0)
    for i in range(len(a)):
        p, r = a[i - 1], a[i]
        s += r[0] * p[1] - p[0] * r[1]
    return s / 2


def on(a, p):
    for i in range(len(a)):
        u, w = a[i - 1], a[i]
        if (w[0] - u[0]) * (p[1] - u[1]) == (w[1] - u[1]) * (p[0] - u[0]) \
                and min(u[0], w[0]) <= p[0] <= max(u[0], w[0]) \
                and min(u[1], w[1]) <= p[1] <= max(u[1], w[1]):
            return True
    return False


def wind(a, p):
    """winding number: crossings of a vertical ray"""
    n = 0
    for i in range(len(a)):
        u, w = a[i - 1], a[i]
        d = (w[0] - u[0]) * (p[1] - u[1]) - (w[1] - u[1]) * (p[0] - u[0])
        if u[0] <= p[0] < w[0] and d < 0:
            n += 1
        elif w[0] <= p[0] < u[0] and d > 0:
            n -= 1
    return n


def loc(a, p):
    return 0 if on(a, p) else (1 if wind(a, p) else -1)


def cw(a):
    return a if shoelace(a) > 0 else a[::-1]


def rect(x0, y0, x1, y1):
    return [[x0, y0], [x0, y1], [x1, y1], [x1, y0]]


def txt(a):
    return [[S(mpq(x)) for x in p] for p in a]


def locs(a, p):
    yield {'k': 'area', 'a': txt(a)}
    yield {'k': 'locate', 'a': txt(a), 'p': txt([p])[0]}


def cases(rng, tier):
    g = [(x, y) for x in range(3) for y in range(3)]
    pts = [(mpq(x, 2), mpq(y, 2)) for x in range(-1, 6) for y in range(-1, 6)]
    for a in itertools.product(g, repeat=3):
        if rng.random() < .2:
            yield {'k': 'area', 'a': txt(a)}
        for p in pts:
            if rng.random() < .03:
                yield {'k': 'locate', 'a': txt(a), 'p': txt([p])[0]}
    for _ in range(1500):
        a = [rng.choice(g) for i in range(rng.choice([4, 4, 5, 6]))]
        yield from locs(a, rng.choice(pts))
    for _ in range(400):
        yield holes(rng, grid=True)
        yield sets(rng)
    while True:
        n = rng.randint(3, 7)
        a = [(rq(rng, 3), rq(rng, 3)) for i in range(n)]
        if rng.random() < .5:
            # make some edges level with the point
            y = rng.choice(a)[1]
            a = [(p[0], y if rng.random() < .3 else p[1]) for p in a]
        p = (rq(rng, 3), rng.choice(a)[1] if rng.random() < .5
             else rq(rng, 3))
        if rng.random() < .3:
            i = rng.randrange(n)
            t = mpq(rng.randint(0, 4), 4)
            u, w = [[Q(x) for x in v] for v in (a[i - 1], a[i])]
            p = tuple(S(u[j] + t * (w[j] - u[j])) for j in (0, 1))
        yield {'k': 'area', 'a': [list(v) for v in a]}
        yield {'k': 'locate', 'a': [list(v) for v in a], 'p': list(p)}
        if rng.random() < .3:
            yield holes(rng)
            yield sets(rng)


def holes(rng, grid=False):
    hs = []
    for i in range(rng.randint(0, 3)):
        # holes in three disjoint boxes, possibly touching corners
        x = 1 + 3 * i
        h = rng.choice([rect(x, 1, x + 2, 3),
                        [[x, 1], [x + 1, 3], [x + 2, 1]],
                        [[x, 1], [x, 3], [x + 3, 3]]])
        if i and rng.random() < .5:
            h = [[u, w + 3] for u, w in h]
        hs.append(h)
    outer = rng.choice([rect(0, 0, 12, 8), rect(1, 0, 11, 7),
                        [[-1, -1], [-1, 9], [13, 9], [13, -1], [6, 0]]])
    d = 2 if grid else rng.choice([1, 2, 3])
    return {'k': 'holes', 'a': txt(outer), 'h': [txt(cw(h)) for h in hs],
            'p': [S(mpq(rng.randint(-2 * d, 13 * d), d)),
                  S(mpq(rng.randint(-2 * d, 9 * d), d))]}


def sets(rng):
    ms = []
    for i in range(rng.randint(0, 4)):
        x, y = rng.randint(0, 5), rng.randint(0, 5)
        a = [rect(x, y, x + 3, y + 2),
             [[x, y], [x + 1, y + 3], [x + 2, y]]][rng.randint(0, 1)]
        hs = []
        if rng.random() < .4:
            a = rect(x, y, x + 4, y + 4)
            hs = [rect(x + 1, y + 1, x + 2, y + 3)]
        ms.append([txt(cw(a)), [txt(cw(h)) for h in hs]])
    return {'k': 'set', 'm': ms, 'p': [S(mpq(rng.randint(-2, 20), 2)),
                                       S(mpq(rng.randint(-2, 20), 2))]}


def locwith(outer, hs, p):
    o = loc(outer, p)
    if o != 1:
        return o
    r = [loc(h, p) for h in hs]
    if 1 in r:
        return -1
    return 0 if 0 in r else 1


def nontrivial(c):
    return c['k'] != 'area' or len(c['a']) > 2


def pts(a):
    return [tuple(Q(x) for x in p) for p in a]


def check(c):
    if c['k'] == 'area':
        a = pts(c['a'])
        need(a)
        w = shoelace(a)
        for nm, b in (('tuples', a), ('arrays', [np.array(p, object)
                                                 for p in a]),
                      ('array', np.array(a, object))):
            r = m.simple_polygon_area(b)
            if r != w:
                return 'area: %s of %s gives %s, not %s' % (nm, a, r, w)
        for i in range(1, len(a)):
            if m.simple_polygon_area(a[i:] + a[:i]) != w:
                return 'area: depends on the starting vertex'
        return None
    p = tuple(Q(x) for x in c['p'])
    if c['k'] == 'locate':
        a = pts(c['a'])
        need(a)
        b0, p0 = list(a), tuple(p)
        w = loc(a, p)
        for nm, b, pp in (('tuples', b0, p0),
                          ('arrays', [np.array(v, object) for v in a],
                           np.array(p, object))):
            r = m.locate_point_polygon_winding_number(b, pp)
            if r != w:
                return 'location: %s of %s in %s gives %s, not %s' % (
                    nm, p, a, r, w)
        if b0 != a or p0 != p:
            return 'location: operand modified'
        return None
    if c['k'] == 'holes':
        a = pts(c['a'])
        hs = [pts(h) for h in c['h']]
        for outer in (a, [np.array(v, object) for v in a]):
            g = SPH(outer, hs)
            if g.area() != shoelace(a) - sum(shoelace(h) for h in hs):
                return 'area with holes: %s' % g.area()
            r = g.locate(p)
            if r != locwith(a, hs, p):
                return 'location with holes: %s' % r
        return None
    ms = [(pts(a), [pts(h) for h in hs]) for a, hs in c['m']]
    g = G2([SPH(a, hs) for a, hs in ms])
    r = [locwith(a, hs, p) for a, hs in ms]
    w = 1 if 1 in r else 0 if 0 in r else -1
    if g.locate(p) != w:
        return 'location in a set: %s, not %s' % (g.locate(p), w)
    if g.area() != sum(shoelace(a) - sum(shoelace(h) for h in hs)
                       for a, hs in ms):
        return 'area of a set: %s' % g.area()
    return None


def shrink(c):
    if c['k'] in ('area', 'locate'):
        for i in range(len(c['a'])):
            if len(c['a']) > 1:
                yield dict(c, a=c['a'][:i] + c['a'][i + 1:])
