"""1D interval sets: contracts of plycutter.geometry.geom1d:Geom1D.

A Geom1D value is described by its interval sequence (n, lo, hi) and its
membership predicate mem(g, x).  The object invariant CANON (established by
the constructor, whose body is verified in `ctor_target`, and assumed by the
other methods, none of which assigns the field) says: every interval is
non-empty and any two are separated by a gap."""
from contracts.common import *
from pyvc.loops import shape
from pyvc.target import mval
from pyvc.lib import as_seq, islistlike, HV
from pyvc import lib as L

K = G + 'geom1d:Geom1D'
PT = 'plycutter.plytypes:'

GS = z3.DeclareSort('Geom1D')
Z, RS, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
g_n = z3.Function('g1.n', GS, Z)
g_lo = z3.Function('g1.lo', GS, Z, RS)
g_ln = z3.Function('g1.lo-inf', GS, Z, B)
g_hi = z3.Function('g1.hi', GS, Z, RS)
g_hp = z3.Function('g1.hi+inf', GS, Z, B)
g_mem = z3.Function('g1.mem', GS, RS, B)
g_pre = z3.Function('g1.prefix', GS, Z, RS, B)
g_wit = z3.Function('g1.which', GS, RS, Z)


def xlo(e, j):
    return X(g_lo(e, j), neg=g_ln(e, j), kind='mpq')


def xhi(e, j):
    return X(g_hi(e, j), pos=g_hp(e, j), kind='mpq')


def pair_of(v):
    """(lo, hi) of a pair value or None"""
    if isinstance(v, Opaque) and v.what.startswith('element of empty'):
        return X(z3.RealVal(0)), X(z3.RealVal(0))
    if isinstance(v, SeqV):
        v = v.seq.items if isinstance(v.seq, CSeq) else None
    if isinstance(v, tuple) and len(v) == 2 and all(
            isnum(lift(x)) if lift(x) is not None else False for x in v):
        return toX(v[0]), toX(v[1])
    return None


def inside(lo, hi, x):
    """lo <= x < hi for extended reals lo, hi (x a finite real)"""
    lo, hi = toX(lo), toX(hi)
    xv = X(x)
    return band(cmp_le(lo, xv), cmp_lt(xv, hi))


class MemFold(Fold):
    def __init__(self, x, name=None, source=()):
        def f(v):
            p = pair_of(v)
            if p is None:
                raise Unsupported('interval expected')
            return bz(inside(p[0], p[1], x))
        super().__init__(name or 'mem@%s' % x, B, z3.BoolVal(False),
                         lambda a, b: z3.Or(a, b), f)
        self.x = x
        self.source = list(source)


class PFold(Fold):
    """or-fold of a predicate on intervals"""

    def __init__(self, name, pred):
        def f(v):
            p = pair_of(v)
            if p is None:
                raise Unsupported('interval expected')
            return bz(pred(*p))
        super().__init__(name, B, z3.BoolVal(False),
                         lambda a, b: z3.Or(a, b), f)


class SFold(Fold):
    """real sum of a term of an interval or of a number"""

    def __init__(self, name, term):
        super().__init__(name, RS, z3.RealVal(0), lambda a, b: a + b, term)


class G1Seq(FSeq):
    """the interval list of the Geom1D value e"""

    def __init__(self, e):
        super().__init__(g_n(e), lambda j: (xlo(e, zi(j)), xhi(e, zi(j))),
                         None, 'g1')
        self.e = e

    def fold(self, eng, fd):
        if isinstance(fd, MemFold) and fd.name.startswith('mem@'):
            return g_mem(self.e, fd.x)
        return super().fold(eng, fd)

    def prefix(self, eng, fd, k):
        if isinstance(fd, MemFold) and fd.name.startswith('mem@'):
            return g_pre(self.e, zi(k), fd.x)
        return super().prefix(eng, fd, k)

    def unfold(self, eng, fd, k):
        if isinstance(fd, MemFold) and fd.name.startswith('mem@'):
            return band(*pre_facts(self.e, k, fd.x))
        return super().unfold(eng, fd, k)


def pre_facts(e, k, x):
    return [z3.Not(g_pre(e, 0, x)), g_pre(e, g_n(e), x) == g_mem(e, x),
            g_pre(e, zi(k) + 1, x) == z3.Or(
                g_pre(e, zi(k), x), bz(inside(xlo(e, zi(k)), xhi(e, zi(k)),
                                              x)))]


def mem_facts(e, x):
    """membership is: some interval contains x (g_wit: which one)"""
    w = g_wit(e, x)
    j = z3.Int('j!mem')
    return [z3.Implies(g_mem(e, x), z3.And(
        0 <= w, w < g_n(e), bz(inside(xlo(e, w), xhi(e, w), x)))),
        z3.ForAll([j], z3.Implies(z3.And(
            0 <= j, j < g_n(e), bz(inside(xlo(e, j), xhi(e, j), x))),
            g_mem(e, x)), patterns=[g_lo(e, j)])]


def canon(e):
    """the object invariant"""
    i, j = z3.Ints('i!c j!c')
    return [g_n(e) >= 0,
            z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < g_n(e)),
                bz(cmp_lt(xlo(e, j), xhi(e, j)))), patterns=[g_lo(e, j)]),
            z3.ForAll([i, j], z3.Implies(
                z3.And(0 <= i, i < j, j < g_n(e)),
                bz(cmp_lt(xhi(e, i), xlo(e, j)))),
                patterns=[z3.MultiPattern(g_hi(e, i), g_lo(e, j))])]


_seqs = {}


def g1seq(e):
    if e.get_id() not in _seqs:
        _seqs[e.get_id()] = G1Seq(e)
    return _seqs[e.get_id()]


SC = Schema('Geom1D', GS)
SC.attrs['intervals'] = lambda eng, st, s: SeqV(g1seq(s.e), 'list')


def new(eng, st, name='g'):
    """an arbitrary Geom1D satisfying the invariant"""
    if SC.cls is None:
        SC.cls = eng.lookup_func(K)
    e = eng.fresh(name, GS)
    st.assume(*canon(e))
    return Sym(SC, e)


# ------------------------------------------------------ contracts of callees

def c_exact_or_inf(eng, st, f, args, kw):
    """FractionFromExactOrInf: the same value, or an error for a number that
    is neither exact nor infinite (proved in C04)"""
    v = lift(args[0])
    if v is None:
        raise Unsupported('conversion of %r' % (args[0],))
    x = toX(v)
    ok = bor(x.neg, x.pos, band(bnot(x.nan), exact(v)))
    for s, b in eng.split(st, ok):
        if b:
            yield s, X(x.v, x.neg, x.pos, False, 'mpq')
        else:
            yield s, Exc('Exception', 'not exact')


def c_exact(eng, st, f, args, kw):
    v = lift(args[0])
    if v is None:
        raise Unsupported('conversion of %r' % (args[0],))
    x = toX(v)
    ok = band(x.fin(), exact(v))
    for s, b in eng.split(st, ok):
        if b:
            yield s, Num('mpq', x.v)
        else:
            yield s, Exc('Exception', 'not exact')


def exact(v):
    """is the (finite) number of an exact class other than bool"""
    if isinstance(v.kind, KX):
        return v.kind.e
    if v.kind == 'any':
        raise Unsupported('exactness of a value of unknown class')
    return v.kind in ('int', 'mpz', 'mpq', 'ex')


def c_ctor(eng, st, c, args, kw):
    """Geom1D(intervals): requires pairs lo <= hi of exact or infinite
    numbers; ensures the invariant and membership in some given interval"""
    if SC.cls is None:
        SC.cls = eng.lookup_func(K)
    if kw or len(args) != 1:
        raise Unsupported('Geom1D arguments')
    seq = as_seq(eng, st, args[0], iterate=True)
    if seq is None:
        raise Unsupported('Geom1D of %r' % (args[0],))
    where = K + '.__init__'

    def req(s, v):
        p = pair_of(v if not isinstance(v, Ref) else
                    L.freeze(s, v))
        if p is None:
            eng.oblige(s, 'Geom1D(...): every interval is a pair of numbers',
                       False, where)
            return
        ks = [lift(x) for x in p]
        eng.oblige(s, 'Geom1D(...): every interval lo <= hi without NaN',
                   cmp_le(*p), where)
        eng.oblige(s, 'Geom1D(...): exact or infinite end points', band(
            *[bor(x.neg, x.pos, exact(x)) for x in ks]), where)
    if isinstance(seq, CSeq):
        seq = CSeq([L.freeze(st, v) if isinstance(v, Ref) else v
                    for v in seq.items])
        for v in seq.items:
            req(st, v)
    else:
        j = eng.fresh('j', Z)
        s = st.copy()
        s.assume(0 <= j, j < zi(seq.n))
        req(s, seq.get(j))
    g = new(eng, st, 'new')
    for x in points(eng):
        fd = memfold(eng, x)
        st.assume(g_mem(g.e, x) == seq.fold(eng, fd))
        st.assume(*mem_facts(g.e, x))
        st.assume(*pre_facts(g.e, z3.IntVal(0), x))
    yield st, g


def points(eng):
    return eng.attr_hooks.setdefault('g1points', [z3.Real('x')])


def memfold(eng, x):
    for fd in eng.folds:
        if fd.name == 'mem@%s' % x:
            return fd
    fd = MemFold(x)
    eng.folds.append(fd)
    return fd


def method_contract(eng, st, f, args, kw):
    """the set operations, by membership (each proved in C01)"""
    nm = f.qual.split('.')[-1]
    a = args[0]
    g = new(eng, st, 'r')
    if not isinstance(a, Sym):
        raise Unsupported('Geom1D operand')
    for x in points(eng):
        m = g_mem(a.e, x)
        if nm == '__invert__':
            r = z3.Not(m)
        else:
            b = args[1]
            if not (isinstance(b, Sym) and b.sc is SC):
                raise Unsupported('Geom1D operand')
            mb = g_mem(b.e, x)
            r = {'__or__': z3.Or(m, mb), '__and__': z3.And(m, mb),
                 '__sub__': z3.And(m, z3.Not(mb)),
                 '__xor__': z3.Xor(m, mb)}[nm]
        st.assume(g_mem(g.e, x) == r)
        st.assume(*mem_facts(g.e, x))
    yield st, g


def contracts(*skip):
    d = {PT + 'FractionFromExactOrInf': c_exact_or_inf,
         PT + 'FractionFromExact': c_exact, K: c_ctor}
    for m in ('__or__', '__and__', '__sub__', '__xor__', '__invert__'):
        d[K + '.' + m] = method_contract
    for s in skip:
        d.pop(K + s if s.startswith('.') or not s else s, None)
    return d


# ------------------------------------------------------ loop templates

def xeq(a, b):
    a, b = toX(a), toX(b)
    return band(biff(a.nan, b.nan), biff(a.neg, b.neg), biff(a.pos, b.pos),
                bor(bnot(a.fin()), a.v == b.v))


def pair_lists(eng, st, names):
    """(name, Seq) of the live variables holding lists of pairs"""
    out = []
    for v in names:
        if v not in st.env:
            continue
        x = st.env[v]
        if not islistlike(st, x) or isinstance(x, tuple):
            continue
        s = as_seq(eng, st, x)
        if isinstance(s, CSeq):
            if all(pair_of(L.freeze(st.copy(), i) if isinstance(i, Ref)
                           else i) is not None for i in s.items):
                out.append((v, CSeq([L.freeze(st.copy(), i)
                                     if isinstance(i, Ref) else i
                                     for i in s.items])))
        else:
            try:
                if pair_of(s.get(z3.Int('probe'))) is not None:
                    out.append((v, s))
            except Unsupported:
                pass
    return out


def flat_lists(eng, st, names):
    """(name, Seq) of live lists of numbers"""
    out = []
    for v in names:
        if v not in st.env:
            continue
        x = st.env[v]
        if not islistlike(st, x) or isinstance(x, tuple) or \
                pair_of(x if not isinstance(x, Ref) else
                        L.freeze(st.copy(), x)) is not None:
            continue
        s = as_seq(eng, st, x)
        if isinstance(s, CSeq):
            if s.n and all(lift(i) is not None for i in s.items):
                out.append((v, s))
        else:
            try:
                if lift(s.get(z3.Int('probe'))) is not None:
                    out.append((v, s))
            except Unsupported:
                pass
    return out


def pair_vars(eng, st, names):
    """(name, None | pair) of live variables that are None or a pair"""
    out = []
    for v in names:
        if v not in st.env:
            continue
        x = st.env[v]
        if x is None:
            out.append((v, None))
            continue
        if isinstance(x, Ref):
            x = L.freeze(st.copy(), x)
        if islistlike(st, x):
            p = pair_of(x)
            if p is not None:
                out.append((v, p))
    return out


_q = itertools.count() if False else __import__('itertools').count()


def forall_j(n, f, pats=None):
    j = z3.Int('j!%d' % next(_q))
    b = f(j)
    if b is True:
        return True
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(n)), bz(b)))


def forall_ij(n, f):
    i, j = z3.Ints('i!%d j!%d' % (next(_q), next(_q)))
    return z3.ForAll([i, j], z3.Implies(
        z3.And(0 <= i, i < j, j < zi(n)), bz(f(i, j))))


def candidates(eng, Lp, st, k):
    """role-based templates for loops over an interval list"""
    if k is None or Lp.seq is None:
        return
    S = Lp.seq
    try:
        if pair_of(S.get(z3.Int('probe'))) is None:
            return
    except Unsupported:
        return
    names = loop_vars(Lp, st)
    k = zi(k)
    lists = pair_lists(eng, st, names)
    pvs = pair_vars(eng, st, names)
    n = zi(S.n)
    # source elements seen so far were acceptable
    yield 'every interval converted so far was exact or infinite', forall_j(
        k, lambda j: band(*[bor(x.neg, x.pos, exact(x))
                            for x in pair_of(S.get(j))]))
    for v, s in lists:
        yield '%s has one entry per interval seen' % v, zi(s.n) == k
        yield '%s copies the intervals seen' % v, band(
            zi(s.n) == k, forall_j(k, lambda j: band(*[
                xeq(a, b) for a, b in zip(pair_of(s.get(j)),
                                          pair_of(S.get(j)))])))
        yield '%s: no NaN' % v, forall_j(s.n, lambda j: band(*[
            bnot(a.nan) for a in pair_of(s.get(j))]))
        yield '%s: lo <= hi' % v, forall_j(s.n, lambda j: cmp_le(
            *pair_of(s.get(j))))
        yield '%s: lo < hi' % v, forall_j(s.n, lambda j: cmp_lt(
            *pair_of(s.get(j))))
        yield '%s: separated' % v, forall_ij(s.n, lambda i, j: cmp_lt(
            pair_of(s.get(i))[1], pair_of(s.get(j))[0]))
    for v, p in pvs:
        if p is None:       # these say something of a pair only
            for nm in [': no NaN', ': lo < hi',
                       ' starts before the next interval'] + [
                           ' is separated from ' + w for w, s in lists]:
                yield v + nm, True
            continue
        yield '%s: no NaN' % v, band(*[bnot(a.nan) for a in p])
        yield '%s: lo < hi' % v, cmp_lt(*p)
        sk = pair_of(S.get(k))
        yield '%s starts before the next interval' % v, bimp(
            k < n, cmp_le(p[0], sk[0]))
        for w, s in lists:
            yield '%s is separated from %s' % (v, w), forall_j(
                s.n, lambda j: cmp_lt(pair_of(s.get(j))[1], p[0]))
    for v, p in pvs:
        for w, s in lists:
            yield '%s is None only while %s is empty' % (v, w), \
                zi(s.n) == 0 if p is None else True
    for fd in list(eng.folds):
        for src in [fd] + list(getattr(fd, 'source', [])):
            try:
                pre = S.prefix(eng, src, k)
            except (Unsupported, AttributeError):
                continue
            for w, s in lists:
                try:
                    fs = s.fold(eng, fd)
                except (Unsupported, TypeError):
                    continue
                yield '%s covers %s of the intervals seen (%s)' % (
                    w, src.name, fd.name), term_eq(fs, pre)
                for v, p in pvs:
                    t = fs if p is None else fd.op(fs, fd.f(p))
                    yield '%s with %s covers %s of the intervals seen (%s)' \
                        % (w, v, src.name, fd.name), term_eq(t, pre)
    for nm, pred in eng.attr_hooks.get('preds', ()):
        yield 'no interval seen so far %s' % nm, forall_j(
            k, lambda j: bnot(pred(*pair_of(S.get(j)))))
    if 'total' in eng.attr_hooks:
        tot = eng.attr_hooks['total'](S, k)
        for v in names:
            if lift(st.env.get(v)) is not None:
                yield '%s is the total so far' % v, xeq(lift(st.env[v]), tot)
    # flat lists of end points
    for v, s in flat_lists(eng, st, names):
        ln = zi(s.n)
        yield '%s alternates end points (from -inf)' % v, band(
            ln == 2 * k + 1, toX(s.get(z3.IntVal(0))).neg,
            forall_j(k, lambda j: band(
                xeq(s.get(z3.simplify(2 * j + 1)), pair_of(S.get(j))[0]),
                xeq(s.get(z3.simplify(2 * j + 2)), pair_of(S.get(j))[1]))))
        yield '%s lists the end points' % v, band(
            ln == 2 * k, forall_j(k, lambda j: band(
                xeq(s.get(z3.simplify(2 * j)), pair_of(S.get(j))[0]),
                xeq(s.get(z3.simplify(2 * j + 1)), pair_of(S.get(j))[1]))))
    # complement built pair by pair
    for v in names:
        x = st.env.get(v)
        if lift(x) is None:
            continue
        x = toX(x)
        yield '%s is the end of the last interval seen' % v, z3.If(
            k == 0, bz(x.neg), bz(xeq(x, pair_of(S.get(
                z3.simplify(k - 1)))[1])))
        for w, s in lists:
            yield '%s lists the gaps seen' % w, band(
                zi(s.n) == k, forall_j(k, lambda j: band(
                    xeq(pair_of(s.get(j))[1], pair_of(S.get(j))[0]),
                    z3.If(j == 0, bz(pair_of(s.get(j))[0].neg),
                          bz(xeq(pair_of(s.get(j))[0],
                                 pair_of(S.get(z3.simplify(j - 1)))[1]))))))


term_eq = L.term_eq


def engine(t, *skip, **kw):
    eng = t.engine(contracts=contracts(*skip), candidates=candidates, **kw)
    memfold(eng, points(eng)[0])
    return eng


def interval_list(eng, st, kind, name='ivs', nondec=True):
    """an arbitrary list of pairs of extended numbers of class `kind`"""
    from pyvc import loops
    q = loops.havoc_seq(eng, st, ('seq', 'list', [('x', kind), ('x', kind)]),
                        name)
    if nondec:
        st.assume(forall_j(q.n, lambda j: band(
            *[bnot(x.nan) for x in pair_of(q.get(j))])))
        st.assume(forall_j(q.n, lambda j: cmp_le(*pair_of(q.get(j)))))
    return q


def frame(eng, s0, s1):
    """nothing that existed before was modified"""
    return all(s1.heap.get(r) is rec for r, rec in s0.heap.items())


def seq_case(m, q):
    n = int(m.eval(zi(q.n), model_completion=True).as_long())
    return [[mval(m, v) for v in pair_of(q.get(z3.IntVal(i)))]
            for i in range(min(n, 6))]


# ------------------------------------------------------ constructor

def ctor(t):
    """Geom1D.__init__: invariant, membership, termination without error"""
    eng = engine(t, '')
    st = fresh_state()
    q = interval_list(eng, st, 'ex')
    x = points(eng)[0]
    fd = eng.folds[0]
    t.replay(eng, lambda m: {'k': 'new', 'a': seq_case(m, q),
                             'x': mval(m, x)})
    c = t.func(eng, K)
    t.funcs.append(K + '.__init__')
    lst = L.eng_alloc(st, q)
    n = 0
    s0 = st.copy()
    for s, v in eng.instantiate(c, st, [lst], {}):
        if isinstance(v, Exc):
            eng.oblige(s, 'Geom1D: accepts every list of intervals with '
                       'exact or infinite ends (no %s)' % v.name, False, K)
            continue
        n += 1
        eng.oblige(s, 'Geom1D: the given list is not modified',
                   frame(eng, s0, s), K)
        r = as_seq(eng, s, s.heap[v.id].fields['intervals'])
        eng.oblige(s.copy(), 'Geom1D: contains exactly the points of the '
                   'given intervals', term_eq(r.fold(eng, fd),
                                              q.fold(eng, fd)), K)
        i, j = eng.fresh('i', Z), eng.fresh('j', Z)
        s1 = s.copy()
        s1.assume(0 <= i, i < zi(r.n))
        a = pair_of(r.get(i)) if not isinstance(r, CSeq) or r.n else None
        if a is None:
            continue
        eng.oblige(s1, 'Geom1D: every interval is non-empty', cmp_lt(*a), K)
        for z in a:
            eng.oblige(s1, 'Geom1D: no NaN end point', bnot(z.nan), K)
        s1.assume(i < j, j < zi(r.n))
        b = pair_of(r.get(j))
        eng.oblige(s1, 'Geom1D: intervals increasing, disjoint and not '
                   'touching', cmp_lt(a[1], b[0]), K)
    eng.oblige(fresh_state(), 'Geom1D: normal completion reachable', n > 0)
