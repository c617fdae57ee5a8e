from util import *
from plycutter.geometry.impl2d import pmr_quadtree as m
from plycutter.geometry.aabb import AABB

RULE = 'collections of segments on small grids (then random rational ones) ' \
    'in every tree with thresholds 0..5, with queries over the same points'
BOUNDS = 'grids up to 5x5, up to 14 segments'
MIN_CASES = 700


def cases(rng, tier):
    def seg(g, d=1):
        while True:
            v = [S(mpq(rng.randint(0, g), d)) for i in range(4)]
            if v[:2] != v[2:] or rng.random() < .1:
                return [v[:2], v[2:]]

    def rseg():
        return [[rq(rng, 4), rq(rng, 4)], [rq(rng, 4), rq(rng, 4)]]
    k = 0
    while True:
        k += 1
        g, d = rng.choice([(2, 1), (3, 1), (4, 1), (5, 2), (8, 3)])
        f = (lambda: seg(g, d)) if k % 5 else rseg
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
        b = None
        if rng.random() < .5:
            b = [[S(mpq(0)), S(mpq(0))], [S(mpq(g, d)), S(mpq(g, d))]]
            if rng.random() < .3:
                b[1] = [S(mpq(g, 2 * d)), S(mpq(g, d))]
        yield {'b': b, 'i': [f() for i in range(n)], 'q': f(),
               't': rng.choice([0, 1, 2, 2, 3, 4, 5]),
               'x': [f() for i in range(rng.choice([0, 0, 1, 5]))]}


def clip(s, b):
    """the part of s in the box, as segment, or None"""
    (ax, ay), (bx, by) = s
    t0, t1 = mpq(0), mpq(1)
    for a, d, l, h in ((ax, bx - ax, b[0][0], b[1][0]),
                       (ay, by - ay, b[0][1], b[1][1])):
        if d == 0:
            if not l <= a <= h:
                return None
        else:
            u, v = (l - a) / d, (h - a) / d
            t0, t1 = max(t0, min(u, v)), min(t1, max(u, v))
    if t0 > t1:
        return None
    return tuple((ax + t * (bx - ax), ay + t * (by - ay)) for t in (t0, t1))


def cr(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def sg(x):
    return (x > 0) - (x < 0)


def on(p, s):
    a, b = s
    return cr(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) \
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def share(s, t):
    if on(s[0], t) or on(s[1], t) or on(t[0], s) or on(t[1], s):
        return True
    return sg(cr(s[0], s[1], t[0])) * sg(cr(s[0], s[1], t[1])) < 0 and \
        sg(cr(t[0], t[1], s[0])) * sg(cr(t[0], t[1], s[1])) < 0


def check(c):
    def seg(s):
        return tuple(P(p) for p in s)
    it, ex = [seg(s) for s in c['i']], [seg(s) for s in c['x']]
    q, th = seg(c['q']), c['t']
    box = bb = None
    if c['b'] is not None:
        box = [P(p) for p in c['b']]
        need(box[0][0] <= box[1][0] and box[0][1] <= box[1][1])
        bb = AABB(*box)

    def must(items, b, qq):
        r = set()
        for s in items:
            u, v = (s, qq) if b is None else (clip(s, b), clip(qq, b))
            if u and v and share(u, v):
                r.add(s)
        return r

    def verdict(got, items, b, qq, what):
        if not isinstance(got, (set, frozenset)):
            got = set(got)
        w = must(items, b, qq)
        if not w <= got:
            return '%s of %s (threshold %d, box %s): %s misses %s' % (
                what, items, th, b, qq, w - got)
        if not got <= set(items):
            return '%s: gives what is not stored: %s' % (what, got)
    qs = [q] + it[:3] + ex[:2]
    arg = list(it)
    t = m.SegmentPMRQuadTree(bb, arg, th)
    if arg != it:
        return 'items modified'
    if box is not None and [tuple(bb.lower), tuple(bb.upper)] != box:
        return 'box modified'
    for qq in qs + [q]:
        r = verdict(t.find(qq), it, box, qq, 'SegmentPMRQuadTree.find')
        if r:
            return r
    if th == 4:
        r = verdict(m.SegmentPMRQuadTree(bb, it).find(q), it, box, q,
                    'SegmentPMRQuadTree.find')
        if r:
            return r
    if box is None:
        return None
    t = m.PMRQuadTree(AABB(*box), lambda s, b: b.intersects_segment(s), it,
                      th)
    old = None
    for k in range(len(ex) + 1):
        now = it + ex[:k]
        for qq in qs:
            r = verdict(t.find_all_similar(qq), now, box, qq,
                        'PMRQuadTree.find_all_similar')
            if r:
                return r
        got = set(t.find_all_similar(q))
        if old is not None and not old <= got:
            return 'PMRQuadTree of %s: adding %s makes %s lose %s' % (
                now[:-1], now[-1], q, old - got)
        old = got
        if k < len(ex):
            t.add(ex[k])
    return None


def nontrivial(c):
    return len(c['i']) + len(c['x']) > 1


def shrink(c):
    for n in ('i', 'x'):
        for i in range(len(c[n])):
            yield dict(c, **{n: c[n][:i] + c[n][i + 1:]})
