"""C10: the interval tree's stabbing query.

The three node classes are verified against one interface contract (a node is
a value of the abstract sort TreeNode with its bounds; adds[t] counts how
often one arbitrary but fixed interval was added to t):

  t.add_segment(low, high, id)  requires low <= high and that neither end lies
      strictly inside a range leaf of t; ensures adds[t] grows by one exactly
      for the fixed interval
  t.stab(v)  requires v in t's range or outside its closure; yields the fixed
      interval adds[t] times if it and t's range contain v, else not at all

As the interval is arbitrary this holds for each one; in particular every
interval yielded contains v.
"""
from contracts.common import *
from contracts.g1 import forall_j
from pyvc.target import mval
from pyvc.lib import HV, as_seq, islistlike
from pyvc import lib as L

LEVEL = 'proof'
M = I2 + 'segment_tree:'
K = M + 'SegmentTree1D'
Z, RS, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
T = z3.DeclareSort('TreeNode')
ID = Schema('object', z3.DeclareSort('Object'))
tmin, tmax = z3.Function('node.min', T, RS), z3.Function('node.max', T, RS)
tcl, tch = z3.Function('node.closed_low', T, B), \
    z3.Function('node.closed_high', T, B)
# x0 is not strictly inside a range leaf of the node
grid = z3.Function('node.grid', T, B)
x0, v0 = z3.Real('x0'), z3.Real('v')
slo, shi = z3.Real('sigma.low'), z3.Real('sigma.high')
sid = z3.Const('sigma.id', ID.sort)
AS = z3.ArraySort(T, Z)


def is_sigma(p):
    """is the element the fixed interval"""
    lo, hi, i = p
    return z3.And(R(lo) == slo, R(hi) == shi, i.e == sid)


def elem(v):
    if isinstance(v, SeqV):
        v = tuple(v.seq.items) if isinstance(v.seq, CSeq) else v
    if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], Sym):
        return v
    raise Unsupported('interval element %r' % (v,))


def mkfolds(eng):
    CNT = Fold('count', Z, z3.IntVal(0), lambda a, b: a + b,
               lambda v: z3.If(is_sigma(elem(v)), 1, 0))
    ENDS = Fold('ends', B, z3.BoolVal(False), lambda a, b: z3.Or(a, b),
                lambda v: z3.Or(R(elem(v)[0]) == x0, R(elem(v)[1]) == x0))
    MEM = Fold('has x0', B, z3.BoolVal(False), lambda a, b: z3.Or(a, b),
               lambda v: R(v) == x0)
    eng.folds += [CNT, ENDS, MEM]
    eng.F = (CNT, ENDS, MEM)
    return CNT, ENDS, MEM


class Arr(HV):
    """ghost: a z3 array"""

    name = 'ghost'

    def __init__(self, e):
        self.e = e

    def h_shape(self, eng, st):
        return ArrShape()


class ArrShape:
    name = 'ghost'

    def __eq__(self, o):
        return isinstance(o, ArrShape)

    def join(self, o):
        return self

    def havoc(self, eng, st, name):
        return Arr(eng.fresh(name, AS))


def adds(eng, st):
    return st.heap[eng.adds].fields['adds'].e


def set_adds(eng, st, e):
    st.heap[eng.adds] = ObjRec('ghost', {'adds': Arr(e)})


def inrange(t, v=v0):
    return z3.And(z3.If(tcl(t), v >= tmin(t), v > tmin(t)),
                  z3.If(tch(t), v <= tmax(t), v < tmax(t)))


def wf(t):
    """the range is not empty"""
    return z3.Or(tmin(t) < tmax(t),
                 z3.And(tmin(t) == tmax(t), tcl(t), tch(t)))


def in_sigma():
    return z3.And(slo <= v0, v0 <= shi)


TS = Schema('node', T)
for _n, _f in (('min', tmin), ('max', tmax)):
    TS.attrs[_n] = (lambda f: lambda eng, st, s: Num('mpq', f(s.e)))(_f)
for _n, _f in (('closed_low', tcl), ('closed_high', tch)):
    TS.attrs[_n] = (lambda f: lambda eng, st, s: f(s.e))(_f)


def m_add(eng, st, t, args, kw):
    if len(args) != 3 or kw:
        raise Unsupported('add_segment arguments')
    lo, hi, i = elem(tuple(args))
    w = K + '.add_segment'
    eng.oblige(st, 'add_segment(...): low <= high', R(lo) <= R(hi), w)
    eng.oblige(st, 'add_segment(...): no end inside a range leaf', z3.Implies(
        z3.Or(R(lo) == x0, R(hi) == x0), grid(t.e)), w)
    a = adds(eng, st)
    set_adds(eng, st, z3.Store(a, t.e, a[t.e] + z3.If(
        is_sigma((lo, hi, i)), 1, 0)))
    yield st, None


def m_stab(eng, st, t, args, kw):
    x = lift(args[0])
    if x is None or isinstance(x, X) or len(args) != 1:
        raise Unsupported('stab argument')
    x = R(x)
    w = K + '.stab'
    eng.oblige(st, 'stab(v): for the value asked', x == v0, w)
    eng.oblige(st, 'stab(v): v in the range of the node or outside its '
               'closure', z3.Or(inrange(t.e), v0 < tmin(t.e),
                                v0 > tmax(t.e)), w)
    n = z3.If(z3.And(inrange(t.e), in_sigma()), adds(eng, st)[t.e], 0)
    yield st, SeqV(segs(eng, st, 'stabbed', n, lambda lo, hi: z3.And(
        lo <= v0, v0 <= hi)), 'iter')


TS.methods['add_segment'] = m_add
TS.methods['stab'] = m_stab


def segs(eng, st, name, count=None, fact=None):
    """a sequence of intervals of unknown length"""
    n = eng.fresh(name + '.n', Z)
    st.assume(n >= 0)
    u = '%s!%d' % (name, len(eng.obls) + len(st.pc) + next(L._ids))
    lo, hi = z3.Function(u + '.low', Z, RS), z3.Function(u + '.high', Z, RS)
    i = z3.Function(u + '.id', Z, ID.sort)

    def get(k):
        k = zi(k)
        return (Num('mpq', lo(k)), Num('mpq', hi(k)), Sym(ID, i(k)))
    foldf = None
    if count is not None:
        def foldf(e, fd):
            return count if fd.name == 'count' else None
    if fact is not None:
        st.assume(forall_j(n, lambda j: fact(lo(j), hi(j))))
    q_ = FSeq(n, get, foldf, name)
    q_.fns = (lo, hi, i)
    if count is not None:
        st.assume(count >= 0)
    return q_


def lem_nonneg(eng, st, q_):
    st.assume(q_.fold(eng, eng.F[0]) >= 0)


# ------------------------------------------------------------- node classes

def setup(t, cls_contracts=False):
    eng = t.engine()
    mkfolds(eng)
    st = fresh_state()
    g = st.alloc(ObjRec('ghost', {'adds': Arr(z3.Const('adds', AS))}))
    eng.adds = g.id
    for nm in ('Node', 'PointLeaf', 'RangeLeaf'):
        eng.lookup_func(K + '.' + nm)
    return eng, st


def made(t, eng, st, nm, args):
    """an object of the class: constructed, then its lists arbitrary"""
    c = t.func(eng, K + '.' + nm)
    outs = [(s, o) for s, o in eng.instantiate(c, st, args, {})
            if not isinstance(o, Exc)]
    if len(outs) != 1:
        raise Unsupported('construction of %s' % nm)
    s, o = outs[0]
    lists = [f for f, v in s.heap[o.id].fields.items()
             if isinstance(v, Ref) and isinstance(s.heap[v.id], ListRec)]
    return s, o, lists


def havoc_lists(eng, s, o, lists):
    for f in lists:
        r = s.heap[o.id].fields[f]
        q_ = segs(eng, s, f)
        s.heap[r.id] = ListRec(q_)
        lem_nonneg(eng, s, q_)


def total(eng, s, o, lists):
    r = z3.IntVal(0)
    for f in lists:
        v = s.heap[o.id].fields[f]
        q_ = as_seq(eng, s, v)
        r = r + q_.fold(eng, eng.F[0])
    return z3.simplify(r)


def fld(eng, s, o, f):
    return s.heap[o.id].fields[f]


def bnd(eng, s, o):
    """min, max, closed_low, closed_high of a concrete node"""
    r = [fld(eng, s, o, f) for f in ('min', 'max', 'closed_low',
                                     'closed_high')]
    return R(r[0]), R(r[1]), bz(r[2]), bz(r[3])


def inr(b, v=v0):
    lo, hi, cl, ch = b
    return z3.And(z3.If(cl, v >= lo, v > lo), z3.If(ch, v <= hi, v < hi))


def kinds():
    """(class name, constructor arguments, invariant, grid definition)"""
    l, r = (Sym(TS, z3.Const(n, T)) for n in ('left', 'right'))
    p, p2 = q('p'), q('p2')

    def pre_node(st):
        st.assume(l.e != r.e, wf(l.e), wf(r.e), tmax(l.e) == tmin(r.e),
                  tch(l.e) == z3.Not(tcl(r.e)))

    def inv_node(eng, s, o, lists, n):
        a = adds(eng, s)
        b = bnd(eng, s, o)
        tot = total(eng, s, o, lists)
        ch = z3.If(inrange(l.e), a[l.e], a[r.e])
        return [z3.Implies(z3.And(inr(b), in_sigma()), tot + ch == n),
                z3.Implies(tot > 0, z3.And(slo <= b[0], shi >= b[1])),
                n >= 0]

    def inv_point(eng, s, o, lists, n):
        b = bnd(eng, s, o)
        return [total(eng, s, o, lists) == z3.If(
            z3.And(slo <= b[0], b[0] <= shi), n, 0), n >= 0]

    def inv_range(eng, s, o, lists, n):
        b = bnd(eng, s, o)
        tot = total(eng, s, o, lists)
        return [z3.Implies(z3.And(slo < b[1], shi > b[0]), tot == n),
                z3.Implies(tot > 0, z3.And(slo <= b[0], shi >= b[1])),
                n >= 0]
    return {
        'Node': ([l, r], pre_node, inv_node,
                 lambda x: z3.And(grid(l.e), grid(r.e)),
                 (tmin(l.e), tmax(r.e), tcl(l.e), tch(r.e))),
        'PointLeaf': ([p], lambda st: None, inv_point,
                      lambda x: z3.BoolVal(True),
                      (R(p), R(p), z3.BoolVal(True), z3.BoolVal(True))),
        'RangeLeaf': ([p, p2], lambda st: st.assume(R(p) < R(p2)), inv_range,
                      lambda x: z3.Not(z3.And(R(p) < x, x < R(p2))),
                      (R(p), R(p2), z3.BoolVal(False), z3.BoolVal(False)))}


def ctor(nm):
    def go(t):
        eng, st = setup(t)
        args, pre, inv, gd, want = kinds()[nm]
        pre(st)
        a = adds(eng, st)
        for x in args:
            if isinstance(x, Sym):
                st.assume(a[x.e] == 0)
        c = t.func(eng, K + '.' + nm)
        for s, o in eng.instantiate(c, st.copy(), args, {}):
            if isinstance(o, Exc):
                eng.oblige(s, '%s(...): raises no %s' % (nm, o.name), False,
                           c.key)
                continue
            b = bnd(eng, s, o)
            for w, (x, y) in zip(('min', 'max', 'closed_low', 'closed_high'),
                                 zip(b, want)):
                eng.oblige(s.copy(), '%s(...): %s' % (nm, w), x == y, c.key)
            lists = [f for f, v in s.heap[o.id].fields.items()
                     if isinstance(v, Ref)
                     and isinstance(s.heap[v.id], ListRec)]
            ids = [s.heap[o.id].fields[f].id for f in lists]
            eng.oblige(s.copy(), '%s(...): its lists are its own' % nm,
                       len(set(ids)) == len(ids) and not any(
                           i in st.heap for i in ids), c.key)
            for i, f in enumerate(inv(eng, s, o, lists, z3.IntVal(0))):
                eng.oblige(s.copy(), '%s(...): node invariant %d' % (
                    nm, i + 1), f, c.key)
            eng.oblige(s, '%s(...): nothing added' % nm,
                       adds(eng, s) == a, c.key)
    return go


def node(nm):
    def go(t):
        eng, st = setup(t)
        args, pre, inv, gd, want = kinds()[nm]
        pre(st)
        s, o, lists = made(t, eng, st, nm, args)
        havoc_lists(eng, s, o, lists)
        n = z3.Int('adds of this node')
        s.assume(*inv(eng, s, o, lists, n))
        a0 = adds(eng, s)
        for x in args:
            if isinstance(x, Sym):
                s.assume(a0[x.e] >= 0)
        # add_segment
        lo, hi, i = q('low'), q('high'), Sym(ID, z3.Const('id', ID.sort))
        s1 = s.copy()
        s1.assume(R(lo) <= R(hi), slo <= shi,
                  z3.Implies(z3.Or(R(lo) == x0, R(hi) == x0), gd(x0)))
        if nm != 'Node':
            s1.assume(gd(R(lo)), gd(R(hi)))
        f = t.func(eng, K + '.%s.add_segment' % nm)
        n1 = n + z3.If(is_sigma((lo, hi, i)), 1, 0)
        for s2, v in t.outcomes(eng, f, s1, [o, lo, hi, i]):
            for j, g in enumerate(inv(eng, s2, o, lists, n1)):
                eng.oblige(s2.copy(), '%s.add_segment: node invariant %d '
                           'with the interval added' % (nm, j + 1), g, f.key)
            u = z3.Const('other', T)
            s3 = s2.copy()
            s3.assume(*[u != x.e for x in args if isinstance(x, Sym)])
            eng.oblige(s3, '%s.add_segment: only its children are told' % nm,
                       adds(eng, s2)[u] == a0[u], f.key)
            keep(eng, s1, s2, o, lists, f.key,
                 '%s.add_segment: bounds unchanged' % nm)
        # stab
        s1 = s.copy()
        b = bnd(eng, s, o)
        s1.assume(z3.Or(inr(b), v0 < b[0], v0 > b[1]))
        if nm == 'RangeLeaf':
            s1.assume(z3.Implies(n > 0, z3.And(gd(slo), gd(shi))))
        f = t.func(eng, K + '.%s.stab' % nm)
        for s2, v in t.outcomes(eng, f, s1, [o, Num('mpq', v0)]):
            r = as_seq(eng, s2, v, iterate=True)
            if r is None:
                eng.oblige(s2, '%s.stab: gives intervals' % nm, False, f.key)
                continue
            eng.oblige(s2.copy(), '%s.stab: each interval containing the '
                       'value as often as it was added, no other' % nm,
                       r.fold(eng, eng.F[0]) == z3.If(
                           z3.And(inr(b), in_sigma()), n, 0), f.key)
            eng.oblige(s2.copy(), '%s.stab: nothing added' % nm,
                       z3.And(adds(eng, s2) == a0,
                              total(eng, s2, o, lists) == total(
                                  eng, s1, o, lists)), f.key)
            keep(eng, s1, s2, o, lists, f.key,
                 '%s.stab: bounds unchanged' % nm)
        t.assume_note('the subtrees of siblings share no node (their ranges '
                      'are disjoint and not empty), so adding to one leaves '
                      'the other alone',
                      'the trees are finite (recursion terminates)')
    return go


def keep(eng, s1, s2, o, lists, where, name):
    a, b = s1.heap[o.id].fields, s2.heap[o.id].fields
    same = set(a) == set(b)
    fs = []
    for f in a:
        x, y = a[f], b.get(f)
        if x is y:
            continue
        if isinstance(x, Ref) or isinstance(y, Ref):
            same = same and isinstance(x, Ref) and isinstance(y, Ref) and \
                x.id == y.id
            continue
        fs.append(L.one(L.equal(eng, s2, x, y)))
    eng.oblige(s2.copy(), name, band(same, *fs), where)


# ------------------------------------------------------------- the tree

def c_new(nm):
    def go(eng, st, c, args, kw):
        if kw:
            raise Unsupported('keyword arguments of ' + c.key)
        e = eng.fresh(nm.lower(), T)
        w = c.key
        if nm == 'Node':
            if len(args) != 2 or not all(isinstance(x, Sym) and x.sc is TS
                                         for x in args):
                raise Unsupported('arguments of ' + w)
            l, r = (x.e for x in args)
            for s, b in eng.split(st, z3.And(tmax(l) == tmin(r),
                                             tch(l) == z3.Not(tcl(r)))):
                if not b:
                    yield s, Exc('AssertionError', 'Node(left, right)')
                    continue
                eng.oblige(s, 'Node(...): children with non-empty ranges',
                           z3.And(wf(l), wf(r)), w)
                eng.oblige(s, 'Node(...): children without intervals',
                           z3.And(adds(eng, s)[l] == 0,
                                  adds(eng, s)[r] == 0), w)
                s.assume(tmin(e) == tmin(l), tmax(e) == tmax(r),
                         tcl(e) == tcl(l), tch(e) == tch(r),
                         grid(e) == z3.And(grid(l), grid(r)))
                s.assume(adds(eng, s)[e] == 0)
                yield s, Sym(TS, e)
            return
        xs = [lift(x) for x in args]
        if any(x is None or isinstance(x, X) for x in xs) or \
                len(xs) != (1 if nm == 'PointLeaf' else 2):
            raise Unsupported('arguments of ' + w)
        if nm == 'PointLeaf':
            a = R(xs[0])
            st.assume(tmin(e) == a, tmax(e) == a, tcl(e), tch(e), grid(e))
        else:
            a, b = R(xs[0]), R(xs[1])
            eng.oblige(st, 'RangeLeaf(...): low < high', a < b, w)
            st.assume(tmin(e) == a, tmax(e) == b, z3.Not(tcl(e)),
                      z3.Not(tch(e)),
                      grid(e) == z3.Not(z3.And(a < x0, x0 < b)))
        st.assume(adds(eng, st)[e] == 0)
        yield st, Sym(TS, e)
    return go


class NumSet(HV):
    def __init__(self, seq):
        self.seq = seq

    def h_seq(self, eng, st):
        raise Unsupported('order of a set')


def mk_set(eng, st, q_):
    yield st, NumSet(q_)


def mk_set_items(eng, st, vs):
    yield st, NumSet(CSeq(vs))


def h_sorted(eng, st, s, kw):
    return sorted_list(eng, st, s, False, kw)


def sorted_list(eng, st, s, strict, kw):
    if kw:
        raise Unsupported('sorted with key')
    CNT, ENDS, MEM = eng.F
    n = eng.fresh('sorted.n', Z)
    e = z3.Function('sorted!%d' % next(L._ids), Z, RS)
    i, j = z3.Ints('i!so j!so')
    m = s.fold(eng, MEM)
    idx = eng.fresh('index of x0', Z)
    lt = (lambda a, b: a < b) if strict else (lambda a, b: a <= b)
    st.assume(n >= 0, n <= zi(s.n), (n == 0) == (zi(s.n) == 0),
              z3.ForAll([i, j], z3.Implies(
                  z3.And(0 <= i, i < j, j < n), lt(e(i), e(j))),
                  patterns=[z3.MultiPattern(e(i), e(j))]),
              z3.Implies(m, z3.And(0 <= idx, idx < n, e(idx) == x0)))
    if not strict:
        st.assume(n == zi(s.n))
    st.assume(z3.Implies(z3.And(m, 0 < idx), lt(e(0), e(idx))),
              z3.Implies(z3.And(m, idx < n - 1), lt(e(idx), e(n - 1))))

    def foldf(en, fd):
        return m if fd.name == 'has x0' else None
    q_ = FSeq(n, lambda k: Num('mpq', e(zi(k))), foldf, 'sorted')
    q_.idx = idx
    yield st, L.eng_alloc(st, q_)




def tree(t):
    eng, st = setup(t)
    for nm in ('Node', 'PointLeaf', 'RangeLeaf'):
        eng.contracts[K + '.' + nm] = c_new(nm)
    eng.attr_hooks['set_of_seq'] = mk_set
    eng.attr_hooks['make_set'] = mk_set_items

    def sorted_ext(eng, st, f, args, kw):
        v = args[0]
        if isinstance(v, NumSet):
            yield from sorted_list(eng, st, v.seq, True, kw)
        else:
            yield from sorted_list(eng, st, L.need_seq(eng, st, v), False,
                                   kw)
    eng.extra_ext["builtins.sorted"] = sorted_ext
    CNT, ENDS, MEM = eng.F
    q_ = segs(eng, st, 'segments')
    n = q_.n
    lo, hi, ids = q_.fns
    st.assume(forall_j(n, lambda j: lo(j) <= hi(j)))
    eng.candidates = cands
    sv = L.eng_alloc(st, q_)
    c = t.func(eng, K)
    total_ = q_.fold(eng, CNT)
    t.funcs.append(K + '.__init__')
    t.replay(eng, lambda m: {'s': [
        [mval(m, q_.get(i)[0]), mval(m, q_.get(i)[1])] for i in range(min(
            8, m.eval(n, model_completion=True).as_long()))],
        'v': mval(m, Num('mpq', v0))})
    done = 0
    s0 = st.copy()
    for s, o in eng.instantiate(c, st, [sv], {}):
        if isinstance(o, Exc):
            eng.oblige(s, 'SegmentTree1D(...): raises no %s' % o.name, False,
                       c.key, o.info)
            continue
        eng.oblige(s.copy(), 'SegmentTree1D(...): the collection is not '
                   'modified', all(s.heap.get(r) is rec for r, rec in
                                   s0.heap.items() if r != eng.adds), c.key)
        # x0 is arbitrary: what holds if x0 is an end of the interval holds
        f = t.func(eng, K + '.stab')
        done += 1
        for which, e in (('low', slo), ('high', shi)):
            s1 = s.copy()
            s1.assume(x0 == e, slo <= shi)
            root = roots(eng, s1, [o])
            for r in root:
                eng.oblige(s1.copy(), 'SegmentTree1D(...): the %s end of '
                           'each interval is within the root' % which,
                           z3.Implies(total_ > 0, z3.And(
                               tmin(r.e) <= e, e <= tmax(r.e))), c.key)
        for r in roots(eng, s, [o]):
            # both proved just above (for x0 = low and x0 = high)
            s.assume(z3.Implies(total_ > 0, z3.And(
                tmin(r.e) <= slo, shi <= tmax(r.e))))
        s1 = s.copy()
        for s2, v in t.outcomes(eng, f, s1, [o, Num('mpq', v0)]):
            r = as_seq(eng, s2, v, iterate=True)
            eng.oblige(s2.copy(), 'SegmentTree1D.stab: each interval of the '
                       'collection containing the value, as often as it '
                       'occurs, and no other', False if r is None else
                       r.fold(eng, CNT) == z3.If(in_sigma(), total_, 0),
                       f.key)
            eng.oblige(s2, 'SegmentTree1D.stab: nothing is added',
                       adds(eng, s2) == adds(eng, s), f.key)
    eng.oblige(fresh_state(), 'SegmentTree1D(...): construction completes',
               done > 0)
    t.assume_note('termination of the loop that builds the tree',
                  'bounds of the intervals and the value are finite exact '
                  'numbers')


def roots(eng, st, vals):
    out = []
    for v in vals:
        if isinstance(v, Sym) and v.sc is TS:
            out.append(v)
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjRec):
            out += [x for x in st.heap[v.id].fields.values()
                    if isinstance(x, Sym) and x.sc is TS]
    return out


def lists_of(eng, st, names):
    """(name, seq, 'nodes' | 'numbers')"""
    for v in names:
        x = st.env.get(v)
        if x is None or isinstance(x, tuple) or not islistlike(st, x):
            continue
        s = as_seq(eng, st, x)
        try:
            if isinstance(s, CSeq):
                if s.n and all(isinstance(i, Sym) and i.sc is TS
                               for i in s.items):
                    yield v, s, 'nodes'
                elif s.n and all(lift(i) is not None for i in s.items):
                    yield v, s, 'numbers'
                elif not s.n:
                    yield v, s, 'empty'
                continue
            e = s.get(z3.Int('probe'))
        except Unsupported:
            continue
        if isinstance(e, Sym) and e.sc is TS:
            yield v, s, 'nodes'
        elif isinstance(e, (Num, X)):
            yield v, s, 'numbers'


def nodes_ok(s, el, a):
    """non-empty, adjacent, empty nodes; el: index -> T"""
    n = zi(s.n)
    yield 'each has a non-empty range', forall_j(
        n, lambda j: wf(el(j)))
    yield 'no intervals yet', forall_j(n, lambda j: a[el(j)] == 0)
    yield 'each touches the next', forall_j(
        n - 1, lambda j: z3.And(tmax(el(j)) == tmin(el(j + 1)),
                                tch(el(j)) == z3.Not(tcl(el(j + 1)))))


def cands(eng, L_, st, k):
    CNT, ENDS, MEM = eng.F
    a = adds(eng, st)
    src = L_.seq
    issegs = False
    if k is not None and isinstance(src, FSeq):
        try:
            elem(src.get(z3.Int('probe')))
            issegs = True
        except Unsupported:
            pass
    if issegs:
        kk = zi(k)
        cp, ep = src.prefix(eng, CNT, kk), src.prefix(eng, ENDS, kk)
        yield 'counts are not negative', cp >= 0
        yield 'an end seen is an end', forall_j(kk, lambda j: z3.Implies(
            z3.Or(R(src.get(j)[0]) == x0, R(src.get(j)[1]) == x0), ep))
        yield 'an interval seen has its ends seen', z3.Implies(
            z3.And(cp > 0, z3.Or(x0 == slo, x0 == shi)), ep)
        yield 'an interval seen is well-formed', z3.Implies(cp > 0,
                                                             slo <= shi)
        yield 'an interval seen contains the value', z3.Implies(
            cp > 0, in_sigma())
        for g, val in st.ghost.items():
            if isinstance(val, Seq):
                yield '%s: the intervals so far' % str(g)[:5], \
                    val.fold(eng, CNT) == cp
    every = [v for v in st.env if not v.startswith('__')]
    vals = list(st.env.values())
    changed = set(loop_vars(L_, st))
    nums = [(v, s) for v, s, kd in lists_of(eng, st, every)
            if kd == 'numbers']
    for r in {x.e.get_id(): x for x in roots(eng, st, vals)}.values():
        if issegs:
            yield 'node %s: every interval so far was added' % r.e, \
                a[r.e] == src.prefix(eng, CNT, zi(k))
    for v, s, kd in list(lists_of(eng, st, every)):
        if v not in changed:
            continue
        if kd in ('numbers', 'empty') and issegs:
            yield '%s: the ends so far' % v, \
                s.fold(eng, MEM) == src.prefix(eng, ENDS, zi(k))
            yield '%s: empty only at the start' % v, \
                (zi(s.n) == 0) == (zi(k) == 0)
        if kd in ('nodes', 'empty'):
            el = lambda j: s.get(j).e if not (isinstance(s, CSeq) and s.n == 0) else None
            n = zi(s.n)
            empty = isinstance(s, CSeq) and s.n == 0
            if k is not None:
                yield '%s: empty only at the start' % v, \
                    (n == 0) == (zi(k) == 0)
            else:
                yield '%s: not empty' % v, n >= 1
            if empty:
                for nm in ('each has a non-empty range', 'no intervals yet',
                           'each touches the next'):
                    yield '%s: %s' % (v, nm), True
            else:
                for nm, f in nodes_ok(s, el, a):
                    yield '%s: %s' % (v, nm), f
            # built from the sorted ends
            for w, e in nums:
                if not isinstance(e, FSeq) and not isinstance(e, CSeq):
                    continue
                if w in changed:
                    continue
                en = zi(e.n)
                ex = lambda i: R(e.get(i))
                hasx = e.fold(eng, MEM)
                nm = '%s: no end of %s inside a node' % (v, w)
                if empty:
                    yield nm, True
                else:
                    yield nm, z3.Implies(hasx, forall_j(
                        n, lambda j: grid(el(j))))
                for how, c in (('all', en), ('so far', k)):
                    if c is None:
                        continue
                    c = zi(c)
                    nm = '%s: closed range of %s (%s)' % (v, w, how)
                    if empty:
                        yield nm, True
                    else:
                        f, l = el(z3.IntVal(0)), el(z3.simplify(n - 1))
                        yield nm, z3.Implies(n > 0, z3.And(
                            tmin(f) == ex(z3.IntVal(0)), tcl(f),
                            tmax(l) == ex(z3.simplify(c - 1)), tch(l)))
            # or from another list of nodes
            for w, e, kd2 in list(lists_of(eng, st, every)):
                if kd2 != 'nodes' or w in changed or k is None:
                    continue
                try:
                    pos = src.get(zi(k))
                except Exception:
                    continue
                if lift(pos) is None or isinstance(lift(pos), X):
                    continue
                pos = zi(lift(pos)) if z3.is_int(lift(pos).e) else None
                if pos is None:
                    continue
                m = zi(e.n)
                c = z3.If(pos < m, pos, m)
                nm = '%s: the range of %s up to the position' % (v, w)
                if empty:
                    yield nm, True
                else:
                    f, l = el(z3.IntVal(0)), el(z3.simplify(n - 1))
                    f2, l2 = e.get(z3.IntVal(0)).e, e.get(
                        z3.simplify(c - 1)).e
                    yield nm, z3.Implies(n > 0, z3.And(
                        tmin(f) == tmin(f2), tcl(f) == tcl(f2),
                        tmax(l) == tmax(l2), tch(l) == tch(l2)))


def slow(t):
    """the reference implementation"""
    eng, st = setup(t)
    CNT, ENDS, MEM = eng.F
    q_ = segs(eng, st, 'segments')
    eng.candidates = slow_cands
    c = t.func(eng, M + 'SegmentTree1D_Slow')
    sv = L.eng_alloc(st, q_)
    for s, o in eng.instantiate(c, st, [sv], {}):
        f = t.func(eng, M + 'SegmentTree1D_Slow.stab')
        for s2, v in t.outcomes(eng, f, s, [o, Num('mpq', v0)]):
            r = as_seq(eng, s2, v, iterate=True)
            eng.oblige(s2, 'SegmentTree1D_Slow.stab: each interval '
                       'containing the value as often as it occurs, and no '
                       'other', r.fold(eng, CNT) == z3.If(
                           in_sigma(), q_.fold(eng, CNT), 0), f.key)


def slow_cands(eng, L_, st, k):
    CNT = eng.F[0]
    if k is None:
        return
    for g, val in st.ghost.items():
        if isinstance(val, Seq):
            yield 'yields: the matching intervals so far', \
                val.fold(eng, CNT) == z3.If(
                    in_sigma(), L_.seq.prefix(eng, CNT, zi(k)), 0)


TARGETS = [(nm + '(...)', ctor(nm)) for nm in ('Node', 'PointLeaf',
                                               'RangeLeaf')] + \
    [(nm + '.add_segment, stab', node(nm)) for nm in (
        'Node', 'PointLeaf', 'RangeLeaf')] + \
    [('SegmentTree1D', tree), ('SegmentTree1D_Slow', slow)]
