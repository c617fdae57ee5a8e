"""C05: fractional angles order directions exactly like true angles."""
from contracts.common import *
from pyvc.target import mval

LEVEL = 'proof'
FR = I2 + 'frangle2d:vector_frangle'
UV = I2 + 'frangle2d:frangle_unit_square_vector'


def half(x, y):
    """0 on the first (clockwise) half turn from the positive x axis"""
    return z3.If(z3.Or(y < 0, z3.And(y == 0, x > 0)), 0, 1)


def before(x1, y1, x2, y2):
    """v1 strictly before v2 in clockwise order from the positive x axis"""
    h1, h2 = half(x1, y1), half(x2, y2)
    cross = x1 * y2 - y1 * x2
    return z3.Or(h1 < h2, z3.And(h1 == h2, cross < 0))


def frangle(t, eng, st, v):
    f = t.func(eng, FR)
    st.assume(z3.Or(R(v[0]) != 0, R(v[1]) != 0))
    yield from t.outcomes(eng, f, st, [v])


def pair(t):
    """range, order (two vectors)"""
    eng = t.engine()
    a, b = pt('a'), pt('b')
    t.replay(eng, lambda m: {'k': 'order', 'a': mval(m, a),
                             'b': mval(m, b)})
    for s, fa in frangle(t, eng, fresh_state(), a):
        ax, ay = R(a[0]), R(a[1])
        eng.oblige(s, 'vector_frangle: result in [0, 8)',
                   band(R(fa) >= 0, R(fa) < 8), FR)
        for s2, fb in frangle(t, eng, s.copy(), b):
            bx, by = R(b[0]), R(b[1])
            be = before(ax, ay, bx, by)
            eng.oblige(s2.copy(), 'vector_frangle: clockwise before implies '
                       'smaller', z3.Implies(be, R(fa) < R(fb)), FR)
            eng.oblige(s2.copy(), 'vector_frangle: smaller implies clockwise '
                       'before', z3.Implies(R(fa) < R(fb), be), FR)
            cross = ax * by - ay * bx
            dot = ax * bx + ay * by
            eng.oblige(s2.copy(), 'vector_frangle: equal exactly for the '
                       'same direction', (R(fa) == R(fb)) ==
                       z3.And(cross == 0, dot > 0), FR)


def rotate(t):
    eng = t.engine()
    a = pt('a')
    t.replay(eng, lambda m: {'k': 'rot', 'a': mval(m, a)})
    for name, rot, add in (('90', (a[1], num_neg(a[0])), 2),
                           ('180', (num_neg(a[0]), num_neg(a[1])), 4)):
        for s, fa in frangle(t, eng, fresh_state(), a):
            for s2, fb in frangle(t, eng, s, rot):
                d = R(fb) - R(fa) - add
                eng.oblige(s2, 'vector_frangle: rotation by %s degrees adds '
                           '%d modulo 8' % (name, add),
                           z3.Or(d == 0, d == -8), FR)


def square(f):
    """the point of the unit square at fractional angle f in [0, 8)"""
    x = z3.If(f <= 1, 1, z3.If(f <= 3, 2 - f, z3.If(f <= 5, -1,
              z3.If(f <= 7, f - 6, 1))))
    y = z3.If(f <= 1, -f, z3.If(f <= 3, -1, z3.If(f <= 5, f - 4,
              z3.If(f <= 7, 1, 8 - f))))
    return x, y


def unitvec(t):
    """frangle -> vector, for f = 8 n + r, 0 <= r < 8"""
    eng = t.engine()
    fr = q('f')
    t.replay(eng, lambda m: {'k': 'trip', 'f': mval(m, fr)})
    f = t.func(eng, UV)
    st = fresh_state()
    n = lib.floor_of(eng, st, R(fr) / 8)
    r = R(fr) - 8 * z3.ToReal(n)
    X_, Y_ = square(r)
    for s, v in t.outcomes(eng, f, st, [fr]):
        sq = eng.lib.as_seq(eng, s, v)
        if sq is None or sq.n != 2:
            eng.oblige(s, 'frangle_unit_square_vector: gives a pair', False,
                       UV)
            continue
        x, y = sq.get(0), sq.get(1)
        eng.oblige(s.copy(), 'frangle_unit_square_vector: the point of the '
                   'unit square at this fractional angle',
                   z3.And(R(x) == X_, R(y) == Y_), UV)
        # the components must divide exactly: not both small ints
        kinds = {lift(x).kind, lift(y).kind}
        eng.oblige(s, 'frangle_unit_square_vector: at least one component '
                   'is a rational', 'mpq' in kinds, UV)


def roundtrip(t):
    """vector_frangle(square(r)) == r; with unitvec: the round trip"""
    eng = t.engine()
    r = z3.Real('r')
    st = fresh_state()
    st.assume(r >= 0, r < 8)
    X_, Y_ = square(r)
    t.replay(eng, lambda m: {'k': 'trip', 'f': mval(m, r)})
    ax, ay = z3.If(X_ >= 0, X_, -X_), z3.If(Y_ >= 0, Y_, -Y_)
    eng.oblige(st.copy(), 'lemma: square(r) is on the unit square',
               z3.If(ax > ay, ax, ay) == 1)
    for s, fb in t.outcomes(eng, t.func(eng, FR), st,
                            [(Num('mpq', X_), Num('mpq', Y_))]):
        eng.oblige(s, 'vector_frangle: gives the fractional angle of a point '
                   'of the unit square', R(fb) == r, FR)


TARGETS = [('order and range', pair), ('rotation', rotate),
           ('unit square vector', unitvec), ('round trip', roundtrip)]
