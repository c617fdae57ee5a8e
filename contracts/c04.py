"""C04: inexact numbers are refused, exact numbers are preserved."""
from contracts.g1 import *
from pyvc import loops
from pyvc.lib import OtherV

LEVEL = 'proof'
FE, FEI = PT + 'FractionFromExact', PT + 'FractionFromExactOrInf'


def anynum(name='v', c=None):
    """a number of any class and value, infinities and NaN included; only
    floats and other classes have those"""
    k = KX.of(z3.Int(name + '.class') if c is None else c)
    v = X(z3.Real(name), z3.Bool(name + '.neg'), z3.Bool(name + '.pos'),
          z3.Bool(name + '.nan'), k)
    return v


def wellformed(v):
    k = v.kind.c
    return z3.And(0 <= k, k < len(KX.CODES),
                  z3.Not(z3.And(v.neg, v.pos)), z3.Not(z3.And(v.neg, v.nan)),
                  z3.Not(z3.And(v.pos, v.nan)),
                  z3.Implies(k <= 4, z3.Not(z3.Or(v.neg, v.pos, v.nan))),
                  z3.Implies(z3.Or(k <= 1, k == 4), z3.IsInt(v.v)))


def convert(key, inf):
    nm = key.split(':')[-1]

    def go(t):
        eng = t.engine()
        v = anynum()
        st = fresh_state()
        st.assume(wellformed(v))
        t.replay(eng, lambda m: {'k': 'conv', 'f': nm, 'v': mval(m, v),
                                 'c': mval(m, v.kind.c)})
        f = t.func(eng, key)
        okv = v.kind.e if not inf else z3.Or(v.kind.e, v.neg, v.pos)
        n = 0
        for s, r in t.outcomes(eng, f, st, [v], may_raise=True):
            if isinstance(r, Exc):
                eng.oblige(s, '%s: raises only for a value that is not exact'
                           % nm, z3.Not(okv), key)
                continue
            n += 1
            eng.oblige(s.copy(), '%s: a value that is not exact is refused'
                       % nm, okv, key)
            x = lift(r)
            eng.oblige(s.copy(), '%s: gives a number' % nm, x is not None,
                       key)
            if x is None:
                continue
            eng.oblige(s.copy(), '%s: the value is unchanged' % nm,
                       xeq(x, v), key)
            xc = kind_code(x.kind) if not isinstance(x.kind, KX) else \
                x.kind.c
            eng.oblige(s, '%s: the result is a rational (or the infinity '
                       'given)' % nm, z3.Or(
                           bz(toX(x).neg), bz(toX(x).pos),
                           z3.BoolVal(False) if xc is None else xc == 2),
                       key)
        eng.oblige(fresh_state(), '%s: normal completion reachable' % nm,
                   n > 0, key)
        # values that are no numbers
        for val in (OtherV(), 'text', None):
            for s, r in t.outcomes(eng, f, fresh_state(), [val],
                                   may_raise=True):
                if not isinstance(r, Exc):
                    eng.oblige(s, '%s: a value that is no number is refused'
                               % nm, False, key)
                else:
                    eng.oblige(s, '%s: a value that is no number is refused'
                               % nm, True, key)
    return go


def anypairs(eng, st, name='pts'):
    """list of pairs of numbers of any class"""
    n = eng.fresh(name + '.n', Z)
    st.assume(n >= 0)
    fs = {}
    for c in 'xy':
        fs[c] = (z3.Function(name + c, Z, RS), z3.Function(
            name + c + '.neg', Z, B), z3.Function(name + c + '.pos', Z, B),
            z3.Function(name + c + '.nan', Z, B),
            z3.Function(name + c + '.class', Z, Z))

    def get(i):
        i = zi(i)
        return tuple(X(f[0](i), f[1](i), f[2](i), f[3](i),
                       KX.of(f[4](i))) for f in fs.values())
    q = FSeq(n, get, None, name)
    j = z3.Int('j!wf')
    for c in (0, 1):
        st.assume(z3.ForAll([j], wellformed(get(j)[c]),
                            patterns=[fs['xy'[c]][0](j)]))
    return q


def ctor1d(t):
    """Geom1D: normal completion only if every end point is exact or
    infinite (the values themselves: C01/C02)"""
    eng = engine(t, '')
    st = fresh_state()
    q = anypairs(eng, st, 'ivs')
    x = points(eng)[0]
    fd = eng.folds[0]
    c = t.func(eng, K)
    lst = L.eng_alloc(st, q)
    okj = forall_j(q.n, lambda j: band(*[
        bor(v.neg, v.pos, v.kind.e) for v in q.get(j)]))
    eng.attr_hooks['sorted'] = None
    t.replay(eng, lambda m: {'k': 'g1', 'a': [
        [mval(m, v), mval(m, v.kind.c)] for i in range(min(4, int(str(
            m.eval(q.n, model_completion=True))))) for v in q.get(i)]})
    n = 0
    for s, v in eng.instantiate(c, st, [lst], {}):
        if isinstance(v, Exc):
            continue
        n += 1
        eng.oblige(s, 'Geom1D: refuses end points that are neither exact '
                   'nor infinite', okj, K)
        break
    eng.oblige(fresh_state(), 'Geom1D: normal completion reachable', n > 0)


GP = I2 + 'geom2d_simple_holes:Geom2D_Py_Simple_Holes'
SP = I2 + 'geom2d_simple_holes:Simple_Polygon_With_Holes'


def intval(v):
    return band(v.fin(), z3.IsInt(v.v))


def pcand(eng, Lp, st, k):
    """loops over the point list"""
    if k is None or Lp.seq is None or not isinstance(Lp.seq, FSeq):
        return
    S = Lp.seq
    try:
        p = pair_of(S.get(z3.Int('probe')))
    except Unsupported:
        return
    if p is None:
        return
    k = zi(k)
    if all(isinstance(v.kind, KX) and v.kind.c is not None for v in p):
        yield 'every coordinate seen is a rational or integral', forall_j(
            k, lambda j: band(*[bor(v.kind.e, intval(v))
                                for v in S.get(j)]))
    for v, s in pair_lists(eng, st, loop_vars(Lp, st)):
        yield '%s copies the points seen' % v, band(
            zi(s.n) == k, forall_j(k, lambda j: band(*[
                xeq(a, b) for a, b in zip(pair_of(s.get(j)),
                                          pair_of(S.get(j)))])))


def polygon(t):
    """2D polygon: every coordinate preserved exactly, or an error"""
    for reorient in (False, True):
        eng = t.engine(candidates=pcand)
        st = fresh_state()
        q = anypairs(eng, st)
        area = z3.Real('area')

        def c_area(eng, st, f, args, kw):
            yield st, Num('mpq', area)

        def c_spwh(eng, st, c, args, kw):
            s2 = st.copy()
            o = s2.alloc(ObjRec(c, {'outer': args[0], 'holes': L.eng_alloc(
                s2, CSeq(args[1:] and as_seq(eng, s2, args[1]).items))}))
            yield s2, o
        from pyvc.eng import ObjRec
        eng.contracts[I2 + 'primitive2d:simple_polygon_area'] = c_area
        eng.contracts[SP] = c_spwh
        eng.contracts[SP + '.area'] = c_area
        f = t.func(eng, GP + '.polygon')
        cls = eng.lookup_func(GP)
        lst = L.eng_alloc(st, q)
        t.replay(eng, lambda m: {'k': 'poly', 'a': [
            [[mval(m, v), mval(m, v.kind.c)] for v in q.get(i)]
            for i in range(min(6, int(str(m.eval(
                q.n, model_completion=True)))))]})
        n = 0
        s0 = st.copy()
        for s, v in t.outcomes(eng, f, st, [cls, lst, reorient],
                               name='polygon', may_raise=True):
            if isinstance(v, Exc):
                continue
            n += 1
            poly = as_seq(eng, s, s.heap[v.id].fields['spwhs']).get(0)
            out = as_seq(eng, s, s.heap[poly.id].fields['outer'])
            eng.oblige(s.copy(), 'polygon: refuses coordinates that are '
                       'neither rational nor integral', forall_j(
                           q.n, lambda j: band(*[
                               bor(v.kind.e, intval(v))
                               for v in q.get(j)])), f.key)

            def same(rev):
                return z3.And(zi(out.n) == q.n, bz(forall_j(
                    q.n, lambda j: band(*[xeq(a, b) for a, b in zip(
                        pair_of(out.get(z3.simplify(q.n - 1 - j)
                                        if rev else j)), q.get(j))]))))
            if reorient:
                s1, s2 = s.copy(), s.copy()
                s1.assume(area < 0)
                s2.assume(area >= 0)
                if eng.feasible(s1):
                    eng.oblige(s1, 'polygon: every vertex preserved exactly '
                               '(reversed when counter-clockwise)',
                               same(True), f.key)
                if eng.feasible(s2):
                    eng.oblige(s2, 'polygon: every vertex preserved exactly '
                               '(reversed when counter-clockwise)',
                               same(False), f.key)
            else:
                eng.oblige(s.copy(), 'polygon: every vertex preserved '
                           'exactly', same(False), f.key)
            j = z3.Int('j')
            s1 = s.copy()
            s1.assume(0 <= j, j < zi(out.n))
            ks = [lift(x).kind for x in flatpair(out.get(j))]
            eng.oblige(s1, 'polygon: the stored coordinates are rationals',
                       all(k == 'mpq' for k in ks), f.key)
            eng.oblige(s, 'polygon: the given list is not modified',
                       frame(eng, s0, s), f.key)
        eng.oblige(fresh_state(), 'polygon: normal completion reachable',
                   n > 0)


def flatpair(v):
    if isinstance(v, SeqV):
        v = v.seq.items
    return tuple(v)


TARGETS = [('FractionFromExact', convert(FE, False)),
           ('FractionFromExactOrInf', convert(FEI, True)),
           ('Geom1D.__init__', ctor1d), ('Geom2D.polygon', polygon)]
