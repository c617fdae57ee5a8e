"""C06: line and segment intersection primitives are exact."""
from contracts.common import *
from pyvc.target import mval

LEVEL = 'proof'
P2 = I2 + 'primitive2d:'
S2 = I2 + 'scan2d:'


def seg(n):
    return (pt(n + '0'), pt(n + '1'))


def d(s):
    return (R(s[1][0]) - R(s[0][0]), R(s[1][1]) - R(s[0][1]))


def det(a, b):
    return a[0] * b[1] - a[1] * b[0]


def meet(a, t, b, u):
    """a(t) == b(u)"""
    da, db = d(a), d(b)
    return z3.And(R(a[0][0]) + t * da[0] == R(b[0][0]) + u * db[0],
                  R(a[0][1]) + t * da[1] == R(b[0][1]) + u * db[1])


def getpt(eng, s, v):
    q_ = eng.lib.as_seq(eng, s, v)
    if q_ is None or q_.n != 2:
        return None
    return R(q_.get(0)), R(q_.get(1))


def cramer(t):
    """two non-parallel lines have exactly one common point"""
    eng = t.engine()
    a, b = seg('a'), seg('b')
    st = fresh_state()
    da, db = d(a), d(b)
    dn = det(da, db)
    st.assume(dn != 0)
    ab = (R(a[0][0]) - R(b[0][0]), R(a[0][1]) - R(b[0][1]))
    t0, u0 = det(db, ab) / dn, det(da, ab) / dn
    eng.oblige(st.copy(), 'lemma: non-parallel lines have a common point',
               meet(a, t0, b, u0))
    x, y = z3.Reals('x y')
    st.assume(meet(a, x, b, y))
    eng.oblige(st, 'lemma: it is unique', z3.And(x == t0, y == u0))


def general(t):
    eng = t.engine()
    a, b = seg('a'), seg('b')
    t.replay(eng, lambda m: {'k': 'general', 'a': mval(m, a),
                             'b': mval(m, b)})
    st = fresh_state()
    st.assume(det(d(a), d(b)) != 0)
    f = t.func(eng, P2 + 'segment_segment_general_intersection')
    for s, v in t.outcomes(eng, f, st, [a, b]):
        ok = isinstance(v, tuple) and len(v) == 3
        eng.oblige(s.copy(), 'returns point and two parameters', ok, f.key)
        if not ok:
            continue
        p = getpt(eng, s, v[0])
        t0, t1 = R(v[1]), R(v[2])
        da, db = d(a), d(b)
        eng.oblige(s.copy(), 'segment_segment_general_intersection: the '
                   'point is on the first line at its parameter',
                   z3.And(p[0] == R(a[0][0]) + t0 * da[0],
                          p[1] == R(a[0][1]) + t0 * da[1]), f.key)
        eng.oblige(s.copy(), 'segment_segment_general_intersection: the '
                   'point is on the second line at its parameter',
                   z3.And(p[0] == R(b[0][0]) + t1 * db[0],
                          p[1] == R(b[0][1]) + t1 * db[1]), f.key)


def segments(t):
    eng = t.engine()
    a, b = seg('a'), seg('b')
    t.replay(eng, lambda m: {'k': 'seg', 'a': mval(m, a), 'b': mval(m, b)})
    f = t.func(eng, S2 + '_nonparallel_intersection_point')
    dn = det(d(a), d(b))
    x, y = z3.Reals('x y')
    for s, v in t.outcomes(eng, f, fresh_state(), [a, b]):
        inside = z3.And(dn != 0, 0 <= x, x <= 1, 0 <= y, y <= 1,
                        meet(a, x, b, y))
        if v is None:
            eng.oblige(s, '_nonparallel_intersection_point: None only when '
                       'the segments are parallel or have no common point',
                       z3.Not(inside), f.key)
            continue
        p = getpt(eng, s, v)
        if p is None:
            eng.oblige(s, '_nonparallel_intersection_point: returns a point '
                       'or None', False, f.key)
            continue
        # x, y: the unique solution (see the lemmas)
        s.assume(z3.Implies(dn != 0, meet(a, x, b, y)))
        da = d(a)
        ab = (R(a[0][0]) - R(b[0][0]), R(a[0][1]) - R(b[0][1]))
        s.assume(z3.Implies(dn != 0, z3.And(
            x * dn == det(d(b), ab), y * dn == det(da, ab))))
        eng.oblige(s.copy(), '_nonparallel_intersection_point: a point only '
                   'when the segments are not parallel and meet', z3.And(
                       dn != 0, 0 <= x, x <= 1, 0 <= y, y <= 1), f.key)
        eng.oblige(s.copy(), '_nonparallel_intersection_point: it is the '
                   'common point', z3.And(p[0] == R(a[0][0]) + x * da[0],
                                          p[1] == R(a[0][1]) + x * da[1]),
                   f.key)


def fraction(t):
    eng = t.engine()
    a, p = seg('a'), pt('p')
    t.replay(eng, lambda m: {'k': 'frac', 'a': mval(m, a), 'p': mval(m, p)})
    f = t.func(eng, P2 + 'line_segment_point_fraction')
    da = d(a)
    ap = (R(p[0]) - R(a[0][0]), R(p[1]) - R(a[0][1]))
    deg = z3.And(da[0] == 0, da[1] == 0)
    same = z3.And(ap[0] == 0, ap[1] == 0)
    online = z3.If(deg, same, det(da, ap) == 0)
    for s, v in t.outcomes(eng, f, fresh_state(), [a, p]):
        if v is None:
            eng.oblige(s, 'line_segment_point_fraction: None only for a point '
                       'off the line', z3.Not(online), f.key)
            continue
        if lift(v) is None:
            eng.oblige(s, 'line_segment_point_fraction: number or None',
                       False, f.key)
            continue
        r = R(v)
        eng.oblige(s.copy(), 'line_segment_point_fraction: a number only for '
                   'a point on the line', online, f.key)
        eng.oblige(s.copy(), 'line_segment_point_fraction: the exact '
                   'fraction', z3.And(
                       R(p[0]) == R(a[0][0]) + r * da[0],
                       R(p[1]) == R(a[0][1]) + r * da[1],
                       z3.Implies(deg, r == 0)), f.key)


def at_y(t):
    eng = t.engine()
    a, y = seg('a'), q('y')
    t.replay(eng, lambda m: {'k': 'aty', 'a': mval(m, a), 'y': mval(m, y)})
    f = t.func(eng, S2 + '_at_y_no_horizontal')
    st = fresh_state()
    da = d(a)
    st.assume(da[1] != 0)
    for s, v in t.outcomes(eng, f, st, [a, y]):
        eng.oblige(s, '_at_y_no_horizontal: the point of the line in row y',
                   (R(v) - R(a[0][0])) * da[1] ==
                   da[0] * (R(y) - R(a[0][1])), f.key)


TARGETS = [('lemma: Cramer', cramer), ('lines', general),
           ('segments', segments), ('position along a segment', fraction),
           ('line at a row', at_y)]
