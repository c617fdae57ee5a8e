"""C02: 1D interval sets are canonical; queries agree with the set."""
from contracts.g1 import *
from pyvc.lib import numfolds
from contracts.c01 import gcase

LEVEL = 'proof'


def begin(t, *skip):
    eng = engine(t, *skip)
    st = fresh_state()
    g = new(eng, st, 'g')
    x = points(eng)[0]
    st.assume(*mem_facts(g.e, x))
    st.assume(*pre_facts(g.e, z3.IntVal(0), x))
    return eng, st, g, x


def all_intervals(e, f):
    return forall_j(g_n(e), lambda j: f(xlo(e, j), xhi(e, j)))


def locate(t):
    """1 strictly between some lo and hi, 0 at an end point, -1 otherwise"""
    eng, st, g, x = begin(t)
    p = X(z3.Real('p'), z3.Bool('p.neg'), z3.Bool('p.pos'), False, 'mpq')
    st.assume(z3.Not(z3.And(p.neg, p.pos)))

    def strict(lo, hi):
        return band(cmp_lt(lo, p), cmp_lt(p, hi))

    def end(lo, hi):
        return bor(cmp_eq(lo, p), cmp_eq(hi, p))
    eng.attr_hooks['preds'] = [('has the point inside', strict),
                               ('ends at the point', end)]
    t.replay(eng, lambda m: {'k': 'locate', 'a': gcase(m, g.e),
                             'x': mval(m, p)})
    f = t.func(eng, K + '.locate')
    s0 = st.copy()
    no_in = all_intervals(g.e, lambda a, b: bnot(strict(a, b)))
    no_end = all_intervals(g.e, lambda a, b: bnot(end(a, b)))
    for s, v in t.outcomes(eng, f, st, [g, p]):
        r = lift(v)
        if r is None:
            eng.oblige(s, 'locate: gives a number', False, f.key)
            continue
        r = R(r)
        eng.oblige(s.copy(), 'locate: the answer is 1, 0 or -1',
                   z3.Or(r == 1, r == 0, r == -1), f.key)
        for val, nm, goal in (
                (1, 'inside only for interior points', z3.Not(no_in)),
                (0, 'indeterminate only for end points', z3.Not(no_end)),
                (-1, 'outside only for points outside', z3.And(
                    no_in, no_end))):
            s1 = s.copy()
            s1.assume(r == val)
            if eng.feasible(s1):
                eng.oblige(s1, 'locate: ' + nm, goal, f.key)
        eng.oblige(s, 'locate: nothing modified', frame(eng, s0, s), f.key)


def exclusive(t):
    """the three answers of locate exclude each other (canonical lists)"""
    eng, st, g, x = begin(t)
    p = X(z3.Real('p'), z3.Bool('p.neg'), z3.Bool('p.pos'), False, 'mpq')
    st.assume(z3.Not(z3.And(p.neg, p.pos)))
    i, j = z3.Ints('i j')
    st.assume(0 <= i, i < g_n(g.e), 0 <= j, j < g_n(g.e))
    st.assume(bz(cmp_lt(xlo(g.e, i), p)), bz(cmp_lt(p, xhi(g.e, i))))
    eng.oblige(st, 'lemma: an interior point is no end point', bnot(bor(
        cmp_eq(xlo(g.e, j), p), cmp_eq(xhi(g.e, j), p))), K)


def is_empty(t):
    eng, st, g, x = begin(t)
    z = z3.IntVal(0)
    lo, hi = xlo(g.e, z), xhi(g.e, z)
    w = z3.If(bz(bnot(lo.neg)), lo.v, z3.If(bz(bnot(hi.pos)), hi.v - 1,
                                            z3.RealVal(0)))
    st.assume(*mem_facts(g.e, w))
    t.replay(eng, lambda m: {'k': 'empty', 'a': gcase(m, g.e)})
    f = t.func(eng, K + '.is_empty')
    for s, v in t.outcomes(eng, f, st, [g]):
        for s1, b in truth_split(eng, s, v):
            if b:
                eng.oblige(s1, 'is_empty: true only when no point is in '
                           'the set', z3.Not(g_mem(g.e, x)), f.key)
            else:
                eng.oblige(s1, 'is_empty: false only when some point is in '
                           'the set', g_mem(g.e, w), f.key)


def length_folds(eng):
    """total length and presence of an infinite end point"""
    def fin(v):
        lo, hi = pair_of(v)
        return hi.v - lo.v

    def inf(v):
        lo, hi = pair_of(v)
        return bz(bor(lo.neg, hi.pos))
    LEN = SFold('length', fin)
    INF = PFold('unbounded', lambda lo, hi: bor(lo.neg, hi.pos))
    F = numfolds(eng)
    F.v.source = [LEN]
    F.pos.source = [INF]
    return LEN, INF


def total(eng, g, LEN, INF):
    S = g1seq(g.e)
    return X(S.fold(eng, LEN), False, S.fold(eng, INF), False)


def measure(t):
    """sum of hi - lo, infinity when an end point is infinite"""
    eng, st, g, x = begin(t)
    LEN, INF = length_folds(eng)
    eng.folds += [LEN, INF]
    eng.attr_hooks['total'] = lambda S, k: X(
        S.prefix(eng, LEN, k), False, S.prefix(eng, INF, k), False)
    t.replay(eng, lambda m: {'k': 'measure', 'a': gcase(m, g.e)})
    f = t.func(eng, K + '.measure1d')
    for s, v in t.outcomes(eng, f, st, [g]):
        if lift(v) is None:
            eng.oblige(s, 'measure1d: gives a number', False, f.key)
            continue
        eng.oblige(s, 'measure1d: the sum of the interval lengths',
                   xeq(lift(v), total(eng, g, LEN, INF)), f.key)


def bounded(t):
    eng, st, g, x = begin(t)
    LEN, INF = length_folds(eng)
    eng.folds += [LEN, INF]
    t.replay(eng, lambda m: {'k': 'bounded', 'a': gcase(m, g.e)})
    f = t.func(eng, K + '.is_bounded')
    tot = total(eng, g, LEN, INF)
    m = eng.lookup_func(K + '.measure1d')

    def c_measure(eng, st, f, args, kw):
        yield st, X(tot.v, False, tot.pos, False)
    eng.contracts[K + '.measure1d'] = c_measure
    for s, v in t.outcomes(eng, f, st, [g]):
        for s1, b in truth_split(eng, s, v):
            eng.oblige(s1, 'is_bounded: true exactly when no end point is '
                       'infinite', bnot(tot.pos) if b else tot.pos, f.key)


def pieces(t):
    """one piece per interval, with exactly its points"""
    eng, st, g, x = begin(t)
    t.replay(eng, lambda m: {'k': 'pieces', 'a': gcase(m, g.e)})
    f = t.func(eng, K + '.disjoint_pieces')
    s0 = st.copy()
    for s, v in t.outcomes(eng, f, st, [g]):
        q = as_seq(eng, s, v)
        if q is None:
            eng.oblige(s, 'disjoint_pieces: gives a list', False, f.key)
            continue
        eng.oblige(s.copy(), 'disjoint_pieces: as many as intervals',
                   zi(q.n) == g_n(g.e), f.key)
        j = z3.Int('j')
        s1 = s.copy()
        s1.assume(0 <= j, j < g_n(g.e), j < zi(q.n))
        if not eng.feasible(s1):
            continue
        p = q.get(j)
        ok = isinstance(p, Sym) and p.sc is SC
        eng.oblige(s1, 'disjoint_pieces: piece j has exactly the points of '
                   'interval j', ok and biff(
                       g_mem(p.e, x), inside(xlo(g.e, j), xhi(g.e, j), x)),
                   f.key)
        eng.oblige(s, 'disjoint_pieces: nothing modified',
                   frame(eng, s0, s), f.key)


UP = z3.Function('predicate', RS, B, RS, B, B)


def filter_(t):
    """exactly the points of the intervals the predicate accepts"""
    eng, st, g, x = begin(t)

    def acc(lo, hi):
        return UP(z3.If(bz(lo.neg), 0, lo.v), bz(lo.neg),
                  z3.If(bz(hi.pos), 0, hi.v), bz(hi.pos))

    def call(eng, st, args, kw):
        yield st, acc(toX(args[0]), toX(args[1]))
    pred = PyFn(call, 'predicate')
    KEEP = MemFold(x, 'kept')
    KEEP.f = lambda v: bz(band(acc(*pair_of(v)), inside(*pair_of(v), x)))
    eng.folds[0].source = [KEEP]
    t.replay(eng, lambda m: {'k': 'filter', 'a': gcase(m, g.e)})
    f = t.func(eng, K + '.filter')
    s0 = st.copy()
    want = g1seq(g.e).fold(eng, KEEP)
    for s, v in t.outcomes(eng, f, st, [g, pred]):
        ok = isinstance(v, Sym) and v.sc is SC
        eng.oblige(s, 'filter: exactly the points of the accepted intervals',
                   ok and g_mem(v.e, x) == want, f.key)
        eng.oblige(s, 'filter: nothing modified', frame(eng, s0, s), f.key)


def exposes(t):
    """get_intervals gives the canonical interval list"""
    eng, st, g, x = begin(t)
    f = t.func(eng, K + '.get_intervals')
    for s, v in t.outcomes(eng, f, st, [g]):
        q = as_seq(eng, s, v)
        if q is None:
            eng.oblige(s, 'get_intervals: gives a list', False, f.key)
            continue
        eng.oblige(s, 'get_intervals: the intervals of the set', band(
            zi(q.n) == g_n(g.e), forall_j(g_n(g.e), lambda j: band(
                xeq(pair_of(q.get(j))[0], xlo(g.e, j)),
                xeq(pair_of(q.get(j))[1], xhi(g.e, j))))), f.key)


def orfold(t):
    """an or-fold over the first k elements is an existential"""
    eng = t.engine()
    P = z3.Function('P', Z, B)
    f = z3.Function('f', Z, B)
    W = z3.Function('W', Z, Z)
    i, j, k = z3.Ints('i j k')

    def claim(k, w):
        return z3.And(z3.Implies(P(k), z3.And(0 <= w, w < k, f(w))),
                      z3.ForAll([j], z3.Implies(z3.And(
                          0 <= j, j < k, f(j)), P(k)), patterns=[f(j)]))
    st = fresh_state()
    st.assume(z3.Not(P(0)))
    eng.oblige(st, 'lemma: or-fold is existential, base',
               claim(z3.IntVal(0), z3.IntVal(0)))
    st = fresh_state()
    w = z3.Int('w')
    st.assume(k >= 0, claim(k, w), P(k + 1) == z3.Or(P(k), f(k)))
    eng.oblige(st, 'lemma: or-fold is existential, step',
               claim(k + 1, z3.If(P(k), w, k)))


from contracts import c01
TARGETS = [('Geom1D.__init__', ctor)] + [
    (n, f) for n, f in c01.TARGETS if n != 'Geom1D.__init__'] + [('Geom1D.locate', locate),
           ('locate answers exclusive', exclusive),
           ('Geom1D.is_empty', is_empty), ('Geom1D.measure1d', measure),
           ('Geom1D.is_bounded', bounded), ('Geom1D.disjoint_pieces', pieces),
           ('Geom1D.filter', filter_), ('Geom1D.get_intervals', exposes),
           ('or-fold lemma', orfold)]
