"""C07: polygon area and point location are exact."""
from contracts.common import *
from contracts.g1 import forall_j
from pyvc.target import mval
from pyvc.lib import as_seq, numfolds, islistlike
from pyvc import lib as L

LEVEL = 'proof'
PR = I2 + 'primitive2d:'
AREA, LOC = PR + 'simple_polygon_area', PR + \
    'locate_point_polygon_winding_number'
GP = I2 + 'geom2d_simple_holes:Geom2D_Py_Simple_Holes'
SP = I2 + 'geom2d_simple_holes:Simple_Polygon_With_Holes'
Z, RS, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

vx, vy = z3.Function('vx', Z, RS), z3.Function('vy', Z, RS)
N = z3.Int('n')
SH = z3.Function('shoelace.prefix', Z, RS)
WR = z3.Function('crossings right.prefix', Z, Z)
WL = z3.Function('crossings left.prefix', Z, Z)
TOP = z3.Function('crossings all.prefix', Z, Z)


def P(k):
    return vx(k), vy(k)


def prev(k):
    k = zi(k)
    return (z3.If(k == 0, vx(N - 1), vx(k - 1)),
            z3.If(k == 0, vy(N - 1), vy(k - 1)))


def ring(eng, st, kind='tuple'):
    st.assume(N >= 1)

    def get(k):
        k = zi(k)
        p = (Num('mpq', vx(k)), Num('mpq', vy(k)))
        return p if kind == 'tuple' else SeqV(CSeq(p), 'arr')
    return SeqV(FSeq(N, get, None, 'poly'), 'list')


def numvars(L_, st):
    return [v for v in loop_vars(L_, st) if lift(st.env.get(v)) is not None
            and not isinstance(st.env[v], bool)]


def cross_term(a, b):
    """twice the signed area (clockwise positive) of origin, a, b"""
    return b[0] * a[1] - a[0] * b[1]


def det(a, b, p):
    """> 0: p strictly left of the directed line a -> b"""
    return (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])


# ------------------------------------------------------------- signed area

def area(kind):
    def go(t):
        eng = t.engine()
        st = fresh_state()
        poly = ring(eng, st, kind)
        half = z3.RealVal(1) / 2

        def unfold(eng, L_, k):
            return [SH(0) == 0,
                    SH(k + 1) == SH(k) + half * cross_term(prev(k), P(k))]
        eng.attr_hooks['unfold'] = [unfold]

        def cand(eng, L_, st, k):
            if k is None:
                return
            lx, ly = P(N - 1)
            px, py = prev(k)
            for v in numvars(L_, st):
                x = toX(lift(st.env[v]))
                yield '%s is the area swept so far' % v, z3.And(
                    bz(x.fin()), x.v == SH(zi(k)) - half * (px * py -
                                                            lx * ly))
            yield from prevs(eng, L_, st, k)
        eng.candidates = cand
        st.assume(SH(0) == 0)
        t.replay(eng, lambda m: {'k': 'area', 'a': mval(m, poly)})
        f = t.func(eng, AREA)
        s0 = st.copy()
        for s, v in t.outcomes(eng, f, st, [poly]):
            x = lift(v)
            eng.oblige(s.copy(), 'simple_polygon_area: the shoelace value '
                       '(clockwise positive)', x is not None and band(
                           toX(x).fin(), toX(x).v == SH(N)), AREA)
            eng.oblige(s, 'simple_polygon_area: nothing modified',
                       frame(s0, s), AREA)
    return go


def frame(s0, s1):
    return all(s1.heap.get(r) is rec for r, rec in s0.heap.items())


def prevs(eng, L_, st, k):
    """variables holding the previous vertex"""
    px, py = prev(k)
    for v in loop_vars(L_, st):
        x = st.env.get(v)
        if x is None or not islistlike(st, x):
            continue
        s = as_seq(eng, st, x)
        if isinstance(s, CSeq) and s.n == 2 and all(
                lift(i) is not None for i in s.items):
            a, b = [toX(lift(i)) for i in s.items]
            yield '%s is the previous vertex' % v, z3.And(
                bz(a.fin()), bz(b.fin()), a.v == px, b.v == py)


def triangle(t):
    """lemma: the shoelace value of three points"""
    eng = t.engine()
    a, b, c = [tuple(R(x) for x in pt(n)) for n in 'abc']
    sh = (cross_term(c, a) + cross_term(a, b) + cross_term(b, c)) / 2
    eng.oblige(fresh_state(), 'lemma: the shoelace value of a triangle',
               sh == -det(a, b, c) / 2)


def rotation(t):
    """lemma: the shoelace value does not depend on the first vertex"""
    eng = t.engine()
    Q = z3.Function('rotated.prefix', Z, RS)
    st = fresh_state()
    st.assume(N >= 2)
    k = z3.Int('k')

    def term(i):
        return cross_term(prev(i), P(i)) / 2

    # rotated list: q(i) = p(i + 1), q(n - 1) = p(0)
    def qt(i):
        b = P(i + 1)
        a = P(i)
        first, last = P(0), P(N - 1)
        b = [z3.If(i == N - 1, u, w) for u, w in zip(first, b)]
        a = [z3.If(i == 0, u, w) for u, w in zip(first, a)]
        a = [z3.If(z3.And(i == N - 1), u, w) for u, w in zip(last, a)]
        return cross_term(a, b) / 2
    z = z3.IntVal(0)
    st.assume(SH(0) == 0, Q(0) == 0, SH(1) == SH(0) + term(z))

    def claim(k):
        return Q(k) == SH(k + 1) - term(z)
    eng.oblige(st.copy(), 'lemma: rotated shoelace, base', claim(z))
    s = st.copy()
    s.assume(0 <= k, k < N - 1, claim(k), Q(k + 1) == Q(k) + qt(k),
             SH(k + 2) == SH(k + 1) + term(k + 1))
    eng.oblige(s, 'lemma: rotated shoelace, step', claim(k + 1))
    s = st.copy()
    s.assume(claim(N - 1), Q(N) == Q(N - 1) + qt(N - 1))
    eng.oblige(s, 'lemma: rotated shoelace, end', Q(N) == SH(N))


# ------------------------------------------------------------- winding

D3 = z3.Function('det', RS, RS, RS, RS, RS, RS, RS)


def dt(a, b, p):
    """the determinant as an opaque function (facts: det_facts)"""
    return D3(a[0], a[1], b[0], b[1], p[0], p[1])


def det_facts(d, a, b, p):
    same = lambda u, v: z3.And(u[0] == v[0], u[1] == v[1])
    bet = lambda i: z3.Or(z3.And(a[i] <= p[i], p[i] <= b[i]),
                          z3.And(b[i] <= p[i], p[i] <= a[i]))
    return [z3.Implies(z3.Or(same(p, a), same(p, b)), d == 0),
            z3.Implies(z3.And(a[1] == b[1], p[1] == b[1]), d == 0),
            z3.Implies(z3.And(d == 0, a[1] != b[1], bet(1)), bet(0)),
            z3.Implies(z3.And(d == 0, a[1] != b[1], p[1] == b[1]),
                       p[0] == b[0]),
            z3.Implies(z3.And(d == 0, a[1] != b[1], p[1] == a[1]),
                       p[0] == a[0])]


def detlemma(t):
    eng = t.engine()
    a, b, p = [tuple(R(x) for x in pt(n)) for n in 'abp']
    for i, f in enumerate(det_facts(det(a, b, p), a, b, p)):
        eng.oblige(fresh_state(), 'lemma: determinant fact %d' % (i + 1), f)


def on_edge(a, b, p, det=None):
    """p on the closed segment a, b"""
    det = det or dt
    def between(i):
        return z3.Or(z3.And(a[i] <= p[i], p[i] <= b[i]),
                     z3.And(b[i] <= p[i], p[i] <= a[i]))
    return z3.And(det(a, b, p) == 0, between(0), between(1))


def cross(a, b, p):
    """(signed crossing of the row of p, is it right of p)"""
    up = z3.And(a[1] <= p[1], p[1] < b[1])
    down = z3.And(b[1] <= p[1], p[1] < a[1])
    d = dt(a, b, p)
    sgn = z3.If(up, 1, z3.If(down, -1, 0))
    right = z3.Or(z3.And(up, d > 0), z3.And(down, d < 0))
    left = z3.Or(z3.And(up, d < 0), z3.And(down, d > 0))
    return sgn, right, left


def c_area(eng, st, f, args, kw):
    """shoelace value (proved above); of a triangle in closed form"""
    v = args[0]
    if isinstance(v, Sym):
        yield st, Num('mpq', v.sc.area(v.e))
        return
    s = as_seq(eng, st, v)
    if not isinstance(s, CSeq) or s.n != 3:
        raise Unsupported('area of a polygon of unknown size')
    pts = []
    for p in s.items:
        q_ = as_seq(eng, st, p)
        xs = [lift(x) for x in q_.items]
        if any(x is None or isinstance(x, X) or x.kind not in
               ('mpq', 'int', 'mpz') for x in xs):
            raise Unsupported('area of inexact points')
        pts.append(tuple(R(x) for x in xs))
    st.assume(*det_facts(dt(*pts), *pts))
    yield st, Num('mpq', -dt(*pts) / 2)


def winding(kind):
    def go(t):
        eng = t.engine(contracts={AREA: c_area})
        st = fresh_state()
        poly = ring(eng, st, kind)
        p = pt('p')
        pv = p if kind == 'tuple' else SeqV(CSeq(p), 'arr')
        pr = tuple(R(x) for x in p)

        def unfold(eng, L_, k):
            sg, ri, le = cross(prev(k), P(k), pr)
            return det_facts(dt(prev(k), P(k), pr), prev(k), P(k), pr) + [
                    WR(0) == 0, WL(0) == 0, TOP(0) == 0,
                    WR(k + 1) == WR(k) + z3.If(ri, sg, 0),
                    WL(k + 1) == WL(k) + z3.If(le, sg, 0),
                    TOP(k + 1) == TOP(k) + sg]
        eng.attr_hooks['unfold'] = [unfold]

        def above(y):
            return z3.If(y > pr[1], 1, 0)

        def same(a):
            return z3.And(a[0] == pr[0], a[1] == pr[1])

        def cand(eng, L_, st, k):
            if k is None:
                return
            k = zi(k)
            yield from prevs(eng, L_, st, k)
            yield 'no vertex seen is the point', forall_j(
                k, lambda j: z3.Not(same(P(j))))
            yield 'no edge seen has the point on it (except its start)', \
                forall_j(k, lambda j: z3.Implies(
                    on_edge(prev(j), P(j), pr), same(prev(j))))
            yield 'crossings: all = left + right while off the boundary', \
                z3.Or(TOP(k) == WL(k) + WR(k), same(P(N - 1)))
            yield 'crossings telescope', TOP(k) == above(prev(k)[1]) - \
                above(prev(z3.IntVal(0))[1])
            for v in numvars(L_, st):
                x = R(lift(st.env[v])) if not isinstance(
                    lift(st.env[v]), X) else None
                if x is None:
                    continue
                for nm, w in (('left - right', WL(k) - WR(k)),
                              ('right - left', WR(k) - WL(k)),
                              ('right', WR(k)), ('left', WL(k)),
                              ('-right', -WR(k)), ('-left', -WL(k))):
                    # the excluded start: an edge starting at the point
                    yield '%s is the signed crossing count (%s)' % (v, nm), \
                        z3.Or(x == z3.ToReal(w), same(P(N - 1)))
                yield '%s is the side of the previous vertex' % v, \
                    x == z3.If(prev(k)[1] > pr[1], z3.RealVal(1), z3.If(
                        prev(k)[1] == pr[1], z3.RealVal(0),
                        z3.RealVal(-1)))
        eng.candidates = cand
        st.assume(WR(0) == 0, WL(0) == 0, TOP(0) == 0)
        t.replay(eng, lambda m: {'k': 'locate', 'a': mval(m, poly),
                                 'p': mval(m, p)})
        f = t.func(eng, LOC)
        s0 = st.copy()
        j = z3.Int('j!on')
        none_on = forall_j(N, lambda j: z3.Not(on_edge(prev(j), P(j), pr)))
        for s, v in t.outcomes(eng, f, st, [poly, pv]):
            x = lift(v)
            if x is None or isinstance(x, X):
                eng.oblige(s, 'locate: gives a number', False, LOC)
                continue
            x = R(x)
            eng.oblige(s.copy(), 'locate: the answer is 1, 0 or -1',
                       z3.Or(x == 1, x == 0, x == -1), LOC)
            for val, nm, goal in (
                    (0, 'on edge only when the point is on a closed edge',
                     z3.Not(none_on)),
                    (1, 'inside only when on no edge', none_on),
                    (1, 'inside only when the boundary winds around the '
                     'point', WR(N) != 0),
                    (-1, 'outside only when on no edge', none_on),
                    (-1, 'outside only when the boundary does not wind '
                     'around the point', WR(N) == 0)):
                s1 = s.copy()
                s1.assume(x == val)
                if eng.feasible(s1):
                    eng.oblige(s1, 'locate: ' + nm, goal, LOC)
            eng.oblige(s, 'locate: nothing modified', frame(s0, s), LOC)
    return go


# ------------------------------------------------------------- holes, sets

RING = Schema('ring', z3.DeclareSort('Ring'))
r_area = z3.Function('ring.area', RING.sort, RS)
r_loc = z3.Function('ring.loc', RING.sort, Z)
RING.area = r_area
SPW = Schema('spwh', z3.DeclareSort('Spwh'))
s_area = z3.Function('spwh.area', SPW.sort, RS)
s_loc = z3.Function('spwh.loc', SPW.sort, Z)


def c_loc(eng, st, f, args, kw):
    r = args[0]
    if not isinstance(r, Sym) or args[1] != 'point':
        raise Unsupported('location in an unknown ring')
    st.assume(z3.Or(r_loc(r.e) == 0, r_loc(r.e) == 1, r_loc(r.e) == -1))
    yield st, Num('int', r_loc(r.e))


def spwh(t, what):
    eng = t.engine(contracts={AREA: c_area, LOC: c_loc})
    st = fresh_state()
    cls = eng.lookup_func(SP)
    outer = Sym(RING, z3.Const('outer', RING.sort))
    H = z3.Function('hole', Z, RING.sort)
    n = z3.Int('holes')
    st.assume(n >= 0)
    q_ = FSeq(n, lambda k: Sym(RING, H(zi(k))), None, 'holes')
    me = st.alloc(ObjRec(cls, {'outer': outer, 'holes': L.eng_alloc(st, q_)}))
    j = z3.Int('j!h')
    st.assume(z3.ForAll([j], z3.Or(r_loc(H(j)) == 0, r_loc(H(j)) == 1,
                                   r_loc(H(j)) == -1),
                        patterns=[r_loc(H(j))]))
    return eng, st, cls, outer, H, n, q_, me


def spwh_area(t):
    """outer area minus the holes' areas"""
    eng, st, cls, outer, H, n, q_, me = spwh(t, 'area')
    HA = Fold('hole area', RS, z3.RealVal(0), lambda a, b: a + b,
              lambda v: r_area(v.e))
    eng.folds.append(HA)
    numfolds(eng).v.source = [HA]

    def cand(eng, L_, st, k):
        if k is None or not isinstance(L_.seq, FSeq):
            return
        for v in numvars(L_, st):
            x = toX(lift(st.env[v]))
            pre = L_.seq.prefix(eng, HA, zi(k))
            yield '%s: outer minus the holes so far' % v, z3.And(
                bz(x.fin()), x.v == r_area(outer.e) - pre)
            yield '%s: the holes so far' % v, z3.And(
                bz(x.fin()), x.v == pre)
    eng.candidates = cand
    f = t.func(eng, SP + '.area')
    s0 = st.copy()
    want = r_area(outer.e) - q_.fold(eng, HA)
    for s, v in t.outcomes(eng, f, st, [me]):
        x = lift(v)
        eng.oblige(s.copy(), 'polygon with holes: area is outer minus holes',
                   x is not None and band(toX(x).fin(), toX(x).v == want),
                   f.key)
        eng.oblige(s, 'polygon with holes: nothing modified',
                   frame(s0, s), f.key)


def spwh_locate(t):
    """inside: in the outer ring and outside every hole; on edge: on a ring"""
    eng, st, cls, outer, H, n, q_, me = spwh(t, 'locate')
    i, j = z3.Ints('i!v j!v')
    st.assume(z3.ForAll([i, j], z3.Implies(
        z3.And(0 <= i, i < n, 0 <= j, j < n, r_loc(H(i)) == 1),
        r_loc(H(j)) != 0), patterns=[z3.MultiPattern(r_loc(H(i)),
                                                     r_loc(H(j)))]))
    t.assume_note('holes of one polygon do not overlap: no point is inside '
                  'one hole and on the edge of another (validity of the '
                  'polygon, see C12)')

    def cand(eng, L_, st, k):
        if k is None or not isinstance(L_.seq, FSeq):
            return
        k = zi(k)
        yield 'outside all holes so far', forall_j(
            k, lambda j: r_loc(H(j)) == -1)
        yield 'not inside any hole so far', forall_j(
            k, lambda j: r_loc(H(j)) != 1)
        yield 'on no hole so far', forall_j(k, lambda j: r_loc(H(j)) != 0)
    eng.candidates = cand
    f = t.func(eng, SP + '.locate')
    s0 = st.copy()
    o = r_loc(outer.e)
    nohole = forall_j(n, lambda j: r_loc(H(j)) == -1)
    noedge = forall_j(n, lambda j: r_loc(H(j)) != 0)
    noin = forall_j(n, lambda j: r_loc(H(j)) != 1)
    for s, v in t.outcomes(eng, f, st, [me, 'point']):
        x = lift(v)
        if x is None:
            eng.oblige(s, 'polygon with holes: gives a number', False, f.key)
            continue
        x = R(x)
        s.assume(z3.Or(o == 0, o == 1, o == -1))
        eng.oblige(s.copy(), 'polygon with holes: the answer is 1, 0 or -1',
                   z3.Or(x == 1, x == 0, x == -1), f.key)
        for val, nm, goal in (
                (1, 'inside only inside the outer ring and outside every '
                 'hole', z3.And(o == 1, nohole)),
                (0, 'on edge only on the outer ring or on a hole inside it',
                 z3.Or(o == 0, z3.And(o == 1, z3.Not(noedge)))),
                (-1, 'outside only outside the outer ring or inside a hole',
                 z3.Or(o == -1, z3.And(o == 1, z3.Not(noin))))):
            s1 = s.copy()
            s1.assume(x == val)
            if eng.feasible(s1):
                eng.oblige(s1, 'polygon with holes: ' + nm, goal, f.key)
        eng.oblige(s, 'polygon with holes: nothing modified',
                   frame(s0, s), f.key)


def polyset(t):
    eng = t.engine()
    st = fresh_state()
    cls = eng.lookup_func(GP)
    SPW.cls = eng.lookup_func(SP)
    S = z3.Function('member', Z, SPW.sort)
    n = z3.Int('members')
    st.assume(n >= 0)
    q_ = FSeq(n, lambda k: Sym(SPW, S(zi(k))), None, 'spwhs')
    me = st.alloc(ObjRec(cls, {'spwhs': L.eng_alloc(st, q_)}))
    j = z3.Int('j!s')
    st.assume(z3.ForAll([j], z3.Or(s_loc(S(j)) == 0, s_loc(S(j)) == 1,
                                   s_loc(S(j)) == -1),
                        patterns=[s_loc(S(j))]))

    def c_sloc(eng, st, f, args, kw):
        if args[1] != 'point':
            raise Unsupported('another point')
        yield st, Num('int', s_loc(args[0].e))

    def c_sarea(eng, st, f, args, kw):
        yield st, Num('mpq', s_area(args[0].e))
    eng.contracts[SP + '.locate'] = c_sloc
    eng.contracts[SP + '.area'] = c_sarea
    return eng, st, S, n, q_, me


def set_locate(t):
    """inside any member: inside; else on the edge of any: on edge"""
    eng, st, S, n, q_, me = polyset(t)

    def cand(eng, L_, st, k):
        if k is None:
            return
        k = zi(k)
        for v in (1, 0):
            yield 'no member so far answers %d' % v, forall_j(
                k, lambda j: s_loc(S(j)) != v)
    eng.candidates = cand
    f = t.func(eng, GP + '.locate')
    s0 = st.copy()
    no1 = forall_j(n, lambda j: s_loc(S(j)) != 1)
    no0 = forall_j(n, lambda j: s_loc(S(j)) != 0)
    for s, v in t.outcomes(eng, f, st, [me, 'point']):
        x = lift(v)
        if x is None:
            eng.oblige(s, 'polygon set: gives a number', False, f.key)
            continue
        x = R(x)
        eng.oblige(s.copy(), 'polygon set: the answer is 1, 0 or -1',
                   z3.Or(x == 1, x == 0, x == -1), f.key)
        for val, nm, goal in (
                (1, 'inside only inside a member', z3.Not(no1)),
                (0, 'on edge only on the edge of a member and inside none',
                 z3.And(no1, z3.Not(no0))),
                (-1, 'outside only outside all members',
                 z3.And(no1, no0))):
            s1 = s.copy()
            s1.assume(x == val)
            if eng.feasible(s1):
                eng.oblige(s1, 'polygon set: ' + nm, goal, f.key)
        eng.oblige(s, 'polygon set: nothing modified', frame(s0, s), f.key)


def set_area(t):
    eng, st, S, n, q_, me = polyset(t)
    A = Fold('member area', RS, z3.RealVal(0), lambda a, b: a + b,
             lambda v: s_area(v.e))
    eng.folds.append(A)
    numfolds(eng).v.source = [A]

    def cand(eng, L_, st, k):
        if k is None or not isinstance(L_.seq, FSeq):
            return
        for v in numvars(L_, st):
            x = toX(lift(st.env[v]))
            yield '%s: the members so far' % v, z3.And(
                bz(x.fin()), x.v == L_.seq.prefix(eng, A, zi(k)))
    eng.candidates = cand
    f = t.func(eng, GP + '.area')
    for s, v in t.outcomes(eng, f, st, [me]):
        x = lift(v)
        eng.oblige(s, 'polygon set: area is the sum of the members\' areas',
                   x is not None and band(toX(x).fin(),
                                          toX(x).v == q_.fold(eng, A)),
                   f.key)


TARGETS = [('simple_polygon_area', area('tuple')),
           ('simple_polygon_area (arrays)', area('arr')),
           ('triangle lemma', triangle), ('rotation lemma', rotation),
           ('determinant lemma', detlemma),
           ('locate_point_polygon_winding_number', winding('tuple')),
           ('locate_point_polygon_winding_number (arrays)', winding('arr')),
           ('Simple_Polygon_With_Holes.area', spwh_area),
           ('Simple_Polygon_With_Holes.locate', spwh_locate),
           ('Geom2D.locate', set_locate), ('Geom2D.area', set_area)]
