"""C03: 1D dilation and erosion are exact."""
from contracts.g1 import *
from contracts.c01 import gcase
from pyvc.loops import KANY

LEVEL = 'proof'

g_grow = z3.Function('g1.grow', GS, RS, RS, B)
g_gwit = z3.Function('g1.grow-which', GS, RS, RS, Z)


def grown(lo, hi, r, x):
    lo, hi = toX(lo), toX(hi)
    rr = Num('mpq', r)
    return inside(num_add(lo, rr, -1), num_add(hi, rr), x)


def grow_facts(e, r, x):
    """grow(e, r, x): x in some widened interval (or-fold lemma of C02)"""
    w = g_gwit(e, r, x)
    j = z3.Int('j!grow')
    return [z3.Implies(g_grow(e, r, x), z3.And(
        0 <= w, w < g_n(e), bz(grown(xlo(e, w), xhi(e, w), r, x)))),
        z3.ForAll([j], z3.Implies(z3.And(
            0 <= j, j < g_n(e), bz(grown(xlo(e, j), xhi(e, j), r, x))),
            g_grow(e, r, x)), patterns=[g_lo(e, j)])]


def buffer(t):
    """interval level: widened by the amount; inexact amounts refused"""
    eng = engine(t)
    st = fresh_state()
    g = new(eng, st, 'g')
    x = points(eng)[0]
    st.assume(*mem_facts(g.e, x))
    st.assume(*pre_facts(g.e, z3.IntVal(0), x))
    r = Num(KX(z3.Bool('r.exact')), z3.Real('r'))
    GROW = MemFold(x, 'grown')
    GROW.f = lambda v: bz(grown(*pair_of(v), r.e, x))
    eng.folds[0].source = [GROW]
    t.replay(eng, lambda m: {'k': 'buffer', 'a': gcase(m, g.e),
                             'r': mval(m, r), 'x': mval(m, x)})
    f = t.func(eng, K + '.buffer')
    s0 = st.copy()
    want = g1seq(g.e).fold(eng, GROW)
    n = 0
    for s, v in t.outcomes(eng, f, st, [g, r], may_raise=True):
        if isinstance(v, Exc):
            eng.oblige(s, 'buffer: an exact amount is accepted',
                       z3.Not(r.kind.e), f.key)
            continue
        n += 1
        eng.oblige(s.copy(), 'buffer: an inexact amount is refused',
                   r.kind.e, f.key)
        ok = isinstance(v, Sym) and v.sc is SC
        eng.oblige(s, 'buffer: exactly the points of the widened intervals',
                   ok and g_mem(v.e, x) == want, f.key)
        eng.oblige(s, 'buffer: nothing modified', frame(eng, s0, s), f.key)
    eng.oblige(fresh_state(), 'buffer: normal completion reachable', n > 0)


def lemma_state(t):
    eng = engine(t)
    st = fresh_state()
    g = new(eng, st, 'g')
    x, r = z3.Reals('x r')
    st.assume(*grow_facts(g.e, r, x))
    return eng, st, g, x, r


def dilation(t):
    """in some widened interval = within distance r of the set"""
    eng, st, g, x, r = lemma_state(t)
    st.assume(r >= 0)
    y = z3.Real('y')
    s = st.copy()
    s.assume(*mem_facts(g.e, y))
    s.assume(g_mem(g.e, y), x - y <= r, y - x <= r)
    eng.oblige(s, 'lemma: a point within distance r of the set is in a '
               'widened interval', g_grow(g.e, r, x))
    s = st.copy()
    w = g_gwit(g.e, r, x)
    lo, hi = xlo(g.e, w), xhi(g.e, w)
    y = z3.If(bz(band(bnot(lo.neg), x - r < lo.v)), lo.v, x - r)
    s.assume(g_grow(g.e, r, x))
    s.assume(*mem_facts(g.e, y))
    eng.oblige(s, 'lemma: a point of a widened interval is within distance '
               'r of the set', z3.And(g_mem(g.e, y), x - y <= r, y - x <= r))


def erosion(t):
    """in some narrowed interval = the whole neighbourhood is in the set"""
    eng, st, g, x, r = lemma_state(t)
    st.assume(r < 0)
    d = -r
    y = z3.Real('y')
    s = st.copy()
    s.assume(*mem_facts(g.e, y))
    s.assume(g_grow(g.e, r, x), x - y <= d, y - x <= d)
    eng.oblige(s, 'lemma: every point within distance r of a point of a '
               'narrowed interval is in the set', g_mem(g.e, y))
    s = st.copy()
    w = g_wit(g.e, x - d)
    h = xhi(g.e, w).v
    for p in (x - d, h):
        s.assume(*mem_facts(g.e, p))
        s.assume(z3.Implies(z3.And(x - p <= d, p - x <= d),
                            g_mem(g.e, p)))
    eng.oblige(s, 'lemma: a point with its whole r-neighbourhood in the set '
               'is in a narrowed interval', g_grow(g.e, r, x))


from contracts.c02 import orfold
TARGETS = [('Geom1D.__init__', ctor), ('Geom1D.buffer', buffer),
           ('dilation lemma', dilation), ('erosion lemma', erosion),
           ('or-fold lemma', orfold)]
