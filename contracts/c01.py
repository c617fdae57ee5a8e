"""C01: 1D interval-set operations are exact set operations."""
from contracts.g1 import *

LEVEL = 'proof'


def gcase(m, e):
    n = int(m.eval(g_n(e), model_completion=True).as_long())
    return [[mval(m, xlo(e, z3.IntVal(i))), mval(m, xhi(e, z3.IntVal(i)))]
            for i in range(min(n, 5))]


SPEC = {'or': z3.Or, 'and': z3.And,
        'sub': lambda a, b: z3.And(a, z3.Not(b)), 'xor': z3.Xor}


def op(name):
    def go(t):
        eng = engine(t, '.__%s__' % name)
        st = fresh_state()
        a, b = new(eng, st, 'a'), new(eng, st, 'b')
        x = points(eng)[0]
        for g in (a, b):
            st.assume(*mem_facts(g.e, x))
            st.assume(*pre_facts(g.e, z3.IntVal(0), x))
        t.replay(eng, lambda m: {'k': name, 'a': gcase(m, a.e),
                                 'b': gcase(m, b.e), 'x': mval(m, x)})
        f = t.func(eng, K + '.__%s__' % name)
        s0 = st.copy()
        for s, v in t.outcomes(eng, f, st, [a, b]):
            r = result(eng, s, v, name)
            if r is None:
                continue
            eng.oblige(s, '%s: exactly the prescribed points' % name,
                       r == SPEC[name](g_mem(a.e, x), g_mem(b.e, x)),
                       f.key)
            eng.oblige(s, '%s: operands not modified' % name,
                       frame(eng, s0, s), f.key)
    return go


def result(eng, s, v, name):
    x = points(eng)[0]
    if isinstance(v, Sym) and v.sc is SC:
        return g_mem(v.e, x)
    eng.oblige(s, '%s: the result is an interval set' % name, False)
    return None


def invert(t):
    eng = engine(t, '.__invert__')
    st = fresh_state()
    a = new(eng, st, 'a')
    x = points(eng)[0]
    fd = eng.folds[0]
    t.replay(eng, lambda m: {'k': 'inv', 'a': gcase(m, a.e),
                             'x': mval(m, x)})
    # lemma used on the argument handed to the constructor
    base_ctor = eng.contracts[K]

    def ctor_with_lemma(eng, st, c, args, kw):
        q = as_seq(eng, st, args[0], iterate=True)
        if q is not None and not isinstance(q, CSeq) and not eng.quiet:
            gap_lemma(eng, st, q, a.e, x, fd)
        yield from base_ctor(eng, st, c, [args[0] if q is None else
                                          SeqV(q, 'iter')], kw)
    eng.contracts[K] = ctor_with_lemma
    f = t.func(eng, K + '.__invert__')
    s0 = st.copy()
    for s, v in t.outcomes(eng, f, st, [a]):
        r = result(eng, s, v, 'invert')
        if r is None:
            continue
        eng.oblige(s, 'invert: exactly the points outside the set',
                   r == z3.Not(g_mem(a.e, x)), f.key)
        eng.oblige(s, 'invert: operand not modified', frame(eng, s0, s),
                   f.key)


def gap_lemma(eng, st, q, e, x, fd):
    """by induction on k: of the first k gaps and the first k intervals
    exactly one contains x if x lies before the next gap, else none does"""
    S = g1seq(e)

    def claim(k):
        z = q.prefix(eng, fd, k)
        m = g_pre(e, k, x)
        lo = pair_of(q.get(k))[0]
        before = bz(cmp_lt(X(x), lo))
        return z3.And(z3.Implies(before, z == z3.Not(m)),
                      z3.Implies(z3.Not(before),
                                 z3.And(z3.Not(z), z3.Not(m))))
    s = st.copy()
    s.assume(*pre_facts(e, z3.IntVal(0), x))
    s.assume(q.unfold(eng, fd, z3.IntVal(0)))
    eng.oblige(s, 'invert: gap lemma, base', claim(z3.IntVal(0)))
    k = eng.fresh('k', Z)
    s = st.copy()
    s.assume(0 <= k, k < g_n(e), claim(k))
    s.assume(*pre_facts(e, k, x))
    s.assume(q.unfold(eng, fd, k))
    s = ground(s, [k - 1, k, k + 1, 2 * k, 2 * k + 1, 2 * k + 2, 2 * k - 1,
                   z3.IntVal(0)])
    eng.oblige(s, 'invert: gap lemma, step', claim(z3.simplify(k + 1)))
    st.assume(claim(g_n(e)), *pre_facts(e, g_n(e), x))
    st.assume(q.unfold(eng, fd, g_n(e)))
    st.assume(q.unfold(eng, fd, z3.simplify(zi(q.n) - 1)))


def consts(t):
    """Geom1D.empty() and Geom1D.full()"""
    for nm, want in (('empty', False), ('full', True)):
        eng = engine(t)
        st = fresh_state()
        f = t.func(eng, K + '.' + nm)
        new(eng, st)
        for s, v in t.outcomes(eng, f, st, [SC.cls]):
            r = result(eng, s, v, nm)
            if r is not None:
                eng.oblige(s, '%s: contains %s point' % (
                    nm, 'every' if want else 'no'),
                    r if want else z3.Not(r), f.key)


TARGETS = [('Geom1D.__init__', ctor)] + [
    ('Geom1D.__%s__' % n, op(n)) for n in ('or', 'and', 'sub', 'xor')] + [
    ('Geom1D.__invert__', invert), ('Geom1D.empty/full', consts)]
