"""C09: the segment quadtree never misses a crossing segment.

One stored segment sigma, one point p and one box predicate pred are
arbitrary but fixed.  A child node is a value of the abstract sort QuadNode
with its box and two ghost flags: found (a search with pred below the node
reports sigma) and ever (sigma was added to it).  Interface contract:

  c.add(item, ..)  found never goes from true to false; found is true after
      adding sigma, if p is on sigma and in c's box and pred holds for every
      box with p; ever is true afterwards only if it was or sigma was added
  c.find_all(pred, result)  puts sigma into result exactly if found

and the class's methods are verified against it.
"""
from contracts.common import *
from contracts.g1 import forall_j
from contracts.c08 import corner
from pyvc.target import mval
from pyvc.lib import as_seq, islistlike
from pyvc import lib as L

LEVEL = 'proof'
M = I2 + 'pmr_quadtree:'
TREE, NODE = M + 'PMRQuadTree', M + 'PMRQuadTree.Node'
SEG = M + 'SegmentPMRQuadTree'
A = G + 'aabb:AABB'
Z, RS, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
QN = z3.DeclareSort('QuadNode')
bf = [z3.Function('box.' + n, QN, RS) for n in ('l0', 'l1', 'u0', 'u1')]
bok = z3.Function('box.nonempty', QN, B)
PRED = z3.Function('pred', B, RS, RS, RS, RS, B)
ITS = z3.Function('meets', RS, RS, RS, RS, B, RS, RS, RS, RS, B)
ON = z3.Function('contains p', RS, RS, RS, RS, B)
px, py = z3.Reals('p.x p.y')
sg = z3.Reals('sigma.ax sigma.ay sigma.bx sigma.by')
PA = z3.Bool('pred holds for every box with p')
AF = z3.ArraySort(QN, B)


def coords(eng, st, item):
    """the four coordinates of a segment"""
    q_ = as_seq(eng, st, item)
    if not isinstance(q_, CSeq) or q_.n != 2:
        raise Unsupported('segment %r' % (item,))
    out = []
    for e in q_.items:
        p = as_seq(eng, st, e)
        if not isinstance(p, CSeq) or p.n != 2:
            raise Unsupported('segment end %r' % (e,))
        for x in p.items:
            x = lift(x)
            if x is None or isinstance(x, X):
                raise Unsupported('segment end %r' % (e,))
            out.append(R(x))
    return out


def issigma(cs):
    return z3.And(*[a == b for a, b in zip(cs, sg)])


def box(eng, st, b):
    """(non-empty, l0, l1, u0, u1) of an AABB object"""
    if not (isinstance(b, Ref) and isinstance(st.heap[b.id], ObjRec)):
        raise Unsupported('box %r' % (b,))
    l, h = corner(eng, st, b, 'lower'), corner(eng, st, b, 'upper')
    xs = [toX(lift(x)) for x in (l[0], l[1], h[0], h[1])]
    return [bz(band(*[x.fin() for x in xs]))] + [x.v for x in xs]


def nbox(e):
    return [bok(e)] + [f(e) for f in bf]


def inbox(b):
    return z3.And(b[0], b[1] <= px, px <= b[3], b[2] <= py, py <= b[4])


def pa(b):
    return z3.Implies(z3.And(PA, inbox(b)), PRED(*b))


class ItemSet:
    """a set of segments; only whether sigma is in it is tracked"""

    def __init__(self, has, n=None):
        self.has = bz(has)
        self.n = n

    def size(self, eng, st):
        if self.n is None:
            self.n = eng.fresh('size', Z)
            st.assume(self.n >= 0)
        return self.n

    def h_len(self, eng, st):
        return Num('int', self.size(eng, st))

    def h_truth(self, eng, st):
        n = self.size(eng, st)
        st.assume(z3.Implies(self.has, n > 0))
        return n > 0

    def h_habs(self, cur, old):
        return SetShape()

    def h_contains(self, eng, st, v):
        c = coords(eng, st, v)
        r = eng.fresh('in', B)
        st.assume(z3.Implies(issigma(c), r == self.has))
        yield st, r

    def h_attrref(self, eng, st, ref, name):
        def add(eng, s, a, k):
            c = coords(eng, s, a[0])
            me = s.heap[ref.id].data
            s.heap[ref.id] = AbsRec('set', ItemSet(z3.Or(me.has,
                                                         issigma(c))))
            yield s, None

        def update(eng, s, a, k):
            h = s.heap[ref.id].data.has
            for x in a:
                h = z3.Or(h, has_of(eng, s, x))
            s.heap[ref.id] = AbsRec('set', ItemSet(h))
            yield s, None

        def union(eng, s, a, k):
            h = s.heap[ref.id].data.has
            for x in a:
                h = z3.Or(h, has_of(eng, s, x))
            yield s, s.alloc(AbsRec('set', ItemSet(h)))

        def clear(eng, s, a, k):
            s.heap[ref.id] = AbsRec('set', ItemSet(False))
            yield s, None

        def discard(eng, s, a, k):
            c = coords(eng, s, a[0])
            me = s.heap[ref.id].data
            s.heap[ref.id] = AbsRec('set', ItemSet(z3.And(
                me.has, z3.Not(issigma(c)))))
            yield s, None
        m = {'add': add, 'update': update, 'union': union, 'copy': union,
             'clear': clear, 'discard': discard}.get(name)
        if m is None:
            raise Unsupported('set method ' + name)
        yield st, PyFn(m, name)

    def h_binref(self, eng, st, ref, op, other, inplace):
        if op == 'BitOr':
            h = z3.Or(st.heap[ref.id].data.has, has_of(eng, st, other))
        elif op == 'BitAnd':
            h = z3.And(st.heap[ref.id].data.has, has_of(eng, st, other))
        else:
            raise Unsupported('set operator ' + op)
        if inplace:
            st.heap[ref.id] = AbsRec('set', ItemSet(h))
            yield st, ref
        else:
            yield st, st.alloc(AbsRec('set', ItemSet(h)))


class SetShape:
    name = 'set'

    def __eq__(self, o):
        return isinstance(o, SetShape)

    def join(self, o):
        return self

    def havoc(self, eng, st, name):
        return ItemSet(eng.fresh('has', B))


def has_of(eng, st, x):
    if isinstance(x, Ref) and isinstance(st.heap[x.id], AbsRec):
        return st.heap[x.id].data.has
    q_ = as_seq(eng, st, x)
    if isinstance(q_, CSeq):
        return z3.Or([issigma(coords(eng, st, i)) for i in q_.items] +
                     [z3.BoolVal(False)])
    if isinstance(q_, FSeq):
        return q_.fold(eng, eng.HAS)
    raise Unsupported('set of %r' % (x,))


def mk_set(eng, st, vs):
    h = z3.Or([issigma(coords(eng, st, v)) for v in vs] +
              [z3.BoolVal(False)])
    yield st, st.alloc(AbsRec('set', ItemSet(
        z3.simplify(h), None if vs else z3.IntVal(0))))


def set_of_seq(eng, st, q_):
    yield st, st.alloc(AbsRec('set', ItemSet(q_.fold(eng, eng.HAS))))


class Flag(L.HV):
    name = 'flag'

    def __init__(self, e):
        self.e = e

    def h_shape(self, eng, st):
        return FlagShape()


class FlagShape:
    name = 'flag'

    def __eq__(self, o):
        return isinstance(o, FlagShape)

    def join(self, o):
        return self

    def havoc(self, eng, st, name):
        return Flag(eng.fresh(name, AF))


def flag(eng, st, f):
    return st.heap[eng.ghost_ref].fields[f].e


def set_flag(eng, st, f, e):
    st.heap[eng.ghost_ref] = st.heap[eng.ghost_ref].with_(f, Flag(e))


QS = Schema('quadnode', QN)


def m_add(eng, st, c, args, kw):
    kw = dict(kw)
    item = args[0] if args else kw.pop('item')
    if set(kw) - {'allow_split'} or len(args) > 2:
        raise Unsupported('arguments of add')
    cs = coords(eng, st, item)
    b = nbox(c.e)
    f0, e0 = flag(eng, st, 'found'), flag(eng, st, 'ever')
    f1 = eng.fresh('found', B)
    st.assume(z3.Implies(f0[c.e], f1), pa(b), z3.Implies(
        z3.And(issigma(cs), ON(*cs), inbox(b), PA), f1))
    e1 = z3.Or(e0[c.e], issigma(cs))
    st.assume(z3.Implies(f0[c.e], e0[c.e]), z3.Implies(f1, e1))
    set_flag(eng, st, 'found', z3.Store(f0, c.e, f1))
    set_flag(eng, st, 'ever', z3.Store(e0, c.e, e1))
    yield st, None


def m_find(eng, st, c, args, kw):
    if len(args) != 2 or kw:
        raise Unsupported('arguments of find_all')
    f, r = args
    if not (isinstance(r, Ref) and isinstance(st.heap[r.id], AbsRec)):
        raise Unsupported('result set %r' % (r,))
    w = NODE + '.find_all'
    same_pred(eng, st, f, w)
    f0, e0 = flag(eng, st, 'found'), flag(eng, st, 'ever')
    st.assume(z3.Implies(f0[c.e], e0[c.e]))
    st.heap[r.id] = AbsRec('set', ItemSet(z3.Or(st.heap[r.id].data.has,
                                                f0[c.e])))
    yield st, None


def same_pred(eng, st, f, where):
    """the function passed down is the fixed predicate"""
    if f is eng.pred:
        return
    s = st.copy()
    b = [z3.BoolVal(True)] + list(z3.Reals('any.l0 any.l1 any.u0 any.u1'))
    if eng.pred_def is not None:
        s.assume(PRED(*b) == eng.pred_def(b))
    lo = (Num('mpq', b[1]), Num('mpq', b[2]))
    hi = (Num('mpq', b[3]), Num('mpq', b[4]))
    n = 0
    for s1, o in eng.instantiate(eng.lookup_func(A), s, [lo, hi], {}):
        for s2, v in eng.call(f, s1, [o]):
            if isinstance(v, Exc):
                eng.oblige(s2, 'find_all(...): the predicate raises no %s'
                           % v.name, False, where)
                continue
            for s3, t in eng.truth(v, s2):
                n += 1
                eng.oblige(s3, 'find_all(...): the predicate asked for is '
                           'passed on', bz(t) == PRED(*b), where)
    eng.oblige(st, 'find_all(...): predicate usable', n > 0, where)


QS.methods['add'] = m_add
QS.methods['find_all'] = m_find


def c_new(eng, st, c, args, kw):
    """Node(main, aabb): an empty node with this box"""
    if kw or len(args) != 2:
        raise Unsupported('arguments of Node')
    e = eng.fresh('node', QN)
    eng.oblige(st, 'Node(...): belongs to this tree', isinstance(
        args[0], Ref) and args[0].id == eng.main, NODE)
    b = box(eng, st, args[1])
    st.assume(*[x == y for x, y in zip(nbox(e), b)])
    st.assume(z3.Not(flag(eng, st, 'found')[e]),
              z3.Not(flag(eng, st, 'ever')[e]))
    yield st, Sym(QS, e)


def c_its(eng, st, f, args, kw):
    """AABB.intersects_segment: true for each box with p, if p is on the
    segment (C08)"""
    b = box(eng, st, args[0])
    cs = coords(eng, st, args[1])
    r = ITS(*cs, *b)
    st.assume(z3.Implies(z3.And(ON(*cs), inbox(b)), r))
    yield st, r


def setup(t):
    eng = t.engine(contracts={NODE: c_new,
                              A + '.intersects_segment': c_its})
    HAS = Fold('has', B, z3.BoolVal(False), lambda a, b: z3.Or(a, b),
               lambda v: issigma(coords(eng, fresh_state(), v)))
    eng.folds.append(HAS)
    eng.HAS = HAS
    eng.attr_hooks['make_set'] = mk_set
    eng.attr_hooks['set_of_seq'] = set_of_seq
    st = fresh_state()
    g = st.alloc(ObjRec('ghost', {
        'found': Flag(z3.Const('found', AF)),
        'ever': Flag(z3.Const('ever', AF))}))
    eng.ghost_ref = g.id
    eng.pred = None
    eng.pred_def = None
    return eng, st


def meets(eng, st, args, kw):
    """the tree's intersects_aabb: true for each box with p, if p is on the
    item"""
    yield from c_its(eng, st, None, [args[1], args[0]], kw)


def segment(n):
    return (pt(n + '.a'), pt(n + '.b'))


# ------------------------------------------------------------- Node

def base(t, eng, st):
    """a node made by the constructor, for an arbitrary tree"""
    cls = eng.lookup_func(TREE)
    main = st.alloc(ObjRec(cls, {}))
    eng.main = main.id
    lo, hi = pt('lo'), pt('hi')
    thr = Num('int', z3.Int('threshold'))
    st.assume(R(lo[0]) <= R(hi[0]), R(lo[1]) <= R(hi[1]))
    outs = list(eng.instantiate(eng.lookup_func(A), st, [lo, hi], {}))
    st, b = outs[0]
    init = eng.class_attr(cls, '__init__', st)
    outs = [(s, v) for s, v in eng.call_body(
        init, st, [main, b, PyFn(meets, 'intersects_aabb')],
        {'threshold': thr}) if not isinstance(v, Exc)]
    if len(outs) != 1:
        raise Unsupported('construction of the tree')
    s, _ = outs[0]
    me = s.alloc(ObjRec(eng.lookup_func(NODE), {}))
    outs = [(s1, v) for s1, v in eng.call_body(
        eng.class_attr(eng.lookup_func(NODE), '__init__', s), s,
        [me, main, b], {})]
    if len(outs) != 1 or isinstance(outs[0][1], Exc):
        raise Unsupported('construction of a node')
    return outs[0][0], me, b


def sets_of(s, o):
    return [v for v in s.heap[o.id].fields.values() if isinstance(v, Ref)
            and isinstance(s.heap[v.id], AbsRec)]


def kids(eng, s, o):
    out = []
    for v in s.heap[o.id].fields.values():
        q_ = as_seq(eng, s, v) if islistlike(s, v) else None
        if isinstance(q_, CSeq):
            out += [x for x in q_.items if isinstance(x, Sym)
                    and x.sc is QS]
    return out


def status(eng, s, o, b):
    """(found, ever) of a concrete node, from its parts"""
    hs = [s.heap[r.id].data.has for r in sets_of(s, o)]
    ks = kids(eng, s, o)
    fl, ev = flag(eng, s, 'found'), flag(eng, s, 'ever')
    F = z3.BoolVal(False)
    return (z3.And(PRED(*b), z3.Or(hs + [fl[c.e] for c in ks] + [F])),
            z3.Or(hs + [ev[c.e] for c in ks] + [F]))


def shape_key(s, o):
    return tuple(sorted((f, v.id if isinstance(v, Ref) else repr(v))
                        for f, v in s.heap[o.id].fields.items()))


def havoc_state(eng, s, o, bx, tag):
    """arbitrary contents for the node's shape"""
    s = s.copy()
    s.pc = tuple(p for p in s.pc)
    for r in sets_of(s, o):
        s.heap[r.id] = AbsRec('set', ItemSet(eng.fresh('has', B)))
    set_flag(eng, s, 'found', eng.fresh('found', AF))
    set_flag(eng, s, 'ever', eng.fresh('ever', AF))
    fl, ev = flag(eng, s, 'found'), flag(eng, s, 'ever')
    for c in kids(eng, s, o):
        s.assume(z3.Implies(fl[c.e], ev[c.e]))
    ks = kids(eng, s, o)
    if len(ks) > 1:
        s.assume(z3.Distinct(*[c.e for c in ks]))
    return s


def shapes(t, eng, s, me, b):
    """the node states (up to set contents and flags) that add leads to"""
    f = eng.lookup_func(NODE + '.add')
    out = [('without children', s)]
    seen = {shape_key(s, me)}
    quiet, eng.quiet = eng.quiet, eng.quiet + 1
    try:
        s0 = havoc_state(eng, s, me, b, 'a')
        for s1, v in eng.call_body(f, s0, [me, segment('first'),
                                           z3.Bool('first split')], {}):
            if isinstance(v, Exc):
                continue
            k = shape_key(s1, me)
            if k not in seen:
                if len(out) > 3:
                    raise Unsupported('too many node shapes')
                seen.add(k)
                # forget how this state came about, except for the boxes
                s2 = s1.copy()
                out.append(('with children', s2))
    finally:
        eng.quiet = quiet
    return out, seen


def node(t):
    eng, st = setup(t)
    s, me, ab = base(t, eng, st)
    b = box(eng, s, ab)
    f = t.func(eng, NODE + '.add')
    g = t.func(eng, NODE + '.find_all')
    t.funcs.append(NODE + '.__init__')
    f0, e0 = status(eng, s, me, b)
    eng.oblige(s.copy(), 'Node(...): empty', z3.And(z3.Not(f0), z3.Not(e0)),
               NODE)
    out, seen = shapes(t, eng, s, me, b)
    item = segment('item')
    ics = coords(eng, s, item)
    nkids = 0
    for nm, s in out:
        s0 = havoc_state(eng, s, me, b, 'b')
        nkids += len(kids(eng, s0, me)) > 0
        f0, e0 = status(eng, s0, me, b)
        split = z3.Bool('allow_split')
        s0.assume(pa(b))
        for s1, v in t.outcomes(eng, f, s0.copy(), [me, item, split],
                                name='Node.add (%s)' % nm):
            for c in kids(eng, s1, me):
                s1.assume(pa(nbox(c.e)))
            f1, e1 = status(eng, s1, me, b)
            eng.oblige(s1.copy(), 'Node.add (%s): what a search found '
                       'before it finds afterwards' % nm,
                       z3.Implies(f0, f1), f.key)
            eng.oblige(s1.copy(), 'Node.add (%s): the new item is found by '
                       'every search covering a point of it in the box' % nm,
                       z3.Implies(z3.And(issigma(ics), ON(*ics), inbox(b),
                                         PA), f1), f.key)
            eng.oblige(s1.copy(), 'Node.add (%s): only the new item is '
                       'added' % nm, z3.Implies(e1, z3.Or(
                           e0, issigma(ics))), f.key)
            eng.oblige(s1.copy(), 'Node.add (%s): children never go' % nm,
                       set(c.e for c in kids(eng, s0, me)) <=
                       set(c.e for c in kids(eng, s1, me)), f.key)
            if nm == 'with children' and shape_key(s1, me) != \
                    shape_key(s0, me):
                raise Unsupported('the shape of a node changes twice')
            eng.oblige(s1, 'Node.add (%s): the box stays' % nm,
                       same_box(eng, s0, s1, me, ab), f.key)
        # find_all
        pred = PyFn(lambda en, s, a, k: iter([(s, PRED(*box(en, s, a[0])))]),
                    'pred')
        eng.pred = pred
        r = s0.alloc(AbsRec('set', ItemSet(z3.Bool('in result'))))
        s2 = s0.copy()
        for s1, v in t.outcomes(eng, g, s2, [me, pred, r],
                                name='Node.find_all (%s)' % nm):
            eng.oblige(s1.copy(), 'Node.find_all (%s): reports exactly what '
                       'is found here or was found before' % nm,
                       s1.heap[r.id].data.has == z3.Or(
                           z3.Bool('in result'), f0), g.key)
            eng.oblige(s1.copy(), 'Node.find_all (%s): only what was added'
                       % nm, z3.Implies(s1.heap[r.id].data.has, z3.Or(
                           z3.Bool('in result'), e0)), g.key)
            same = all(s1.heap.get(i) is rec for i, rec in s0.heap.items()
                       if i != r.id)
            eng.oblige(s1, 'Node.find_all (%s): changes nothing but the '
                       'result' % nm, same, g.key)
    eng.oblige(fresh_state(), 'Node.add: splitting was examined', nkids > 0)
    t.assume_note('the subtrees of siblings share no node (a node creates '
                  'its children itself)', 'the trees are finite (recursion '
                  'terminates)')


def same_box(eng, s0, s1, me, ab):
    ok = s1.heap[me.id].fields.get('aabb') is \
        s0.heap[me.id].fields.get('aabb')
    x, y = box(eng, s0, ab), box(eng, s1, ab)
    return band(ok, *[a == b for a, b in zip(x, y)])


# ------------------------------------------------------------- trees

def rootof(eng, s, vals):
    for v in vals:
        if isinstance(v, Sym) and v.sc is QS:
            yield v
        elif isinstance(v, Ref) and isinstance(s.heap.get(v.id), ObjRec) \
                and v.id != eng.ghost_ref:
            for x in s.heap[v.id].fields.values():
                if isinstance(x, Sym) and x.sc is QS:
                    yield x
                elif isinstance(x, Ref) and x.id != v.id and \
                        isinstance(s.heap.get(x.id), ObjRec):
                    for y in s.heap[x.id].fields.values():
                        if isinstance(y, Sym) and y.sc is QS:
                            yield y


def roots(eng, s, vals):
    return {x.e.get_id(): x for x in rootof(eng, s, vals)}.values()


def cands(eng, L_, st, k):
    if k is None or not isinstance(L_.seq, FSeq):
        return
    kk = zi(k)
    try:
        cs = coords(eng, st, L_.seq.get(z3.Int('probe')))
    except Unsupported:
        return
    hp = L_.seq.prefix(eng, eng.HAS, kk)
    for r in roots(eng, st, list(st.env.values())):
        b = nbox(r.e)
        yield 'every item so far is found', z3.Implies(
            z3.And(hp, ON(*sg), inbox(b), PA),
            flag(eng, st, 'found')[r.e])
        yield 'what was found is still found', z3.Implies(
            flag(eng, L_.entry, 'found')[r.e],
            flag(eng, st, 'found')[r.e])
        yield 'only items so far are stored', z3.Implies(
            flag(eng, st, 'ever')[r.e],
            z3.Or(hp, flag(eng, L_.entry, 'ever')[r.e]))
    for v, x in st.env.items():
        if isinstance(x, Ref) and x.id in L_.mut and isinstance(
                st.heap[x.id], ObjRec) and getattr(
                    st.heap[x.id].cls, 'key', '') == A:
            ne, l0, l1, u0, u1 = box(eng, st, x)
            yield '%s: empty only at the start' % v, ne == (kk > 0)

            def holds(j):
                c = coords(eng, st, L_.seq.get(j))
                return z3.And(*[z3.And(l0 <= c[i], c[i] <= u0,
                                       l1 <= c[i + 1], c[i + 1] <= u1)
                                for i in (0, 2)])
            yield '%s: contains the items so far' % v, z3.Implies(
                kk > 0, forall_j(kk, holds))
            yield '%s: contains sigma if it is among the items so far' % v, \
                z3.Implies(hp, z3.And(ne, *[
                    z3.And(l0 <= sg[i], sg[i] <= u0, l1 <= sg[i + 1],
                           sg[i + 1] <= u1) for i in (0, 2)]))


def c_include(eng, st, f, args, kw):
    """AABB.include_point: the smallest box with the old one and the point
    (C08)"""
    b, p = args
    ne, l0, l1, u0, u1 = box(eng, st, b)
    q_ = as_seq(eng, st, p)
    x, y = (R(lift(q_.get(i))) for i in (0, 1))

    def lo(a, c):
        return z3.If(ne, z3.If(a < c, a, c), c)

    def hi(a, c):
        return z3.If(ne, z3.If(a > c, a, c), c)
    l = [lo(l0, x), lo(l1, y)]
    h = [hi(u0, x), hi(u1, y)]
    mk = lambda v: SeqV(CSeq([X(i, False, False, False) for i in v]), 'arr')
    st.heap[b.id] = ObjRec(st.heap[b.id].cls, {
        'lower': mk(l), 'upper': mk(h),
        'middle': mk([(i + j) / 2 for i, j in zip(l, h)])})
    yield st, None


def items(eng, st):
    n = z3.Int('items')
    st.assume(n >= 0)
    fs = [z3.Function('item.' + c, Z, RS) for c in ('ax', 'ay', 'bx', 'by')]

    def get(k):
        v = [Num('mpq', f(zi(k))) for f in fs]
        return ((v[0], v[1]), (v[2], v[3]))
    return FSeq(n, get, None, 'items')


def tree(t, withbox, quad):
    eng, st = setup(t)
    eng.candidates = cands
    eng.contracts[A + '.include_point'] = c_include
    q_ = items(eng, st)
    sv = L.eng_alloc(st, q_)
    key = SEG if not quad else TREE
    c = t.func(eng, key)
    thr = Num('int', z3.Int('threshold'))
    cl = eng.lookup_func(TREE)
    # the root's owner: any tree object
    eng.main = None

    def new(eng_, s, cc, args, kw):
        if isinstance(args[0], Ref) and isinstance(
                s.heap[args[0].id], ObjRec) and s.heap[
                    args[0].id].cls.key == TREE:
            eng.main = args[0].id
        yield from c_new(eng_, s, cc, args, kw)
    eng.contracts[NODE] = new
    query = segment('query')
    qc = coords(eng, st, query)
    st.assume(PA == ON(*qc))
    eng.pred_def = lambda b: ITS(*qc, *b)
    ab = None
    if withbox:
        lo, hi = pt('lo'), pt('hi')
        st.assume(R(lo[0]) <= R(hi[0]), R(lo[1]) <= R(hi[1]))
        st, ab = list(eng.instantiate(eng.lookup_func(A), st, [lo, hi],
                                      {}))[0]
    # p is on sigma: it is between its ends (lemma between)
    a0, a1, b0, b1 = sg
    st.assume(z3.Implies(ON(*sg), z3.And(*[
        z3.Or(z3.And(u <= v, v <= w), z3.And(w <= v, v <= u))
        for u, v, w in ((a0, px, b0), (a1, py, b1))])))
    has = q_.fold(eng, eng.HAS)
    args = {'items': sv, 'threshold': thr}
    if quad:
        pos = [ab, PyFn(meets, 'intersects_aabb')]
    else:
        pos = [ab]
    done = 0
    s0 = st.copy()
    what = key.split(':')[1]
    t.funcs.append(key + '.__init__')
    fnd = 'find' if not quad else 'find_all_similar'
    t.replay(eng, lambda m: {
        'b': [mval(m, lo), mval(m, hi)] if withbox else None,
        'i': mval(m, SeqV(q_)), 'q': mval(m, query), 't': min(50, max(
            0, m.eval(thr.e, model_completion=True).as_long())), 'x': []})
    for s, o in eng.instantiate(c, st, pos, args):
        if isinstance(o, Exc):
            eng.oblige(s, '%s(...): raises no %s' % (what, o.name), False,
                       key, o.info)
            continue
        eng.oblige(s.copy(), '%s(...): items and box are not modified' % what,
                   all(s.heap.get(r) is rec for r, rec in s0.heap.items()
                       if r != eng.ghost_ref), key)
        done += 1
        steps = [('', s, z3.BoolVal(False))]
        if quad:
            new_ = segment('new')
            ncs = coords(eng, s, new_)
            f = t.func(eng, key + '.add')
            for s1, v in t.outcomes(eng, f, s.copy(), [o, new_]):
                steps.append((' after a further add', s1, issigma(ncs)))
        for nm, s1, extra in steps:
            f = t.func(eng, key + '.' + fnd)
            for s2, v in t.outcomes(eng, f, s1.copy(), [o, query]):
                if not (isinstance(v, Ref) and isinstance(
                        s2.heap[v.id], AbsRec)):
                    eng.oblige(s2, '%s.%s%s: gives a set' % (
                        what, fnd, nm), False, f.key)
                    continue
                r = s2.heap[v.id].data.has
                for rt in roots(eng, s2, [o]):
                    # (the interface contract, for the root's box)
                    s2.assume(pa(nbox(rt.e)))
                inb = z3.BoolVal(True)
                if withbox:
                    inb = inbox(box(eng, s2, ab))
                eng.oblige(s2.copy(), '%s.%s%s: reports every stored '
                           'segment sharing a point with the query%s' % (
                               what, fnd, nm,
                               ' inside the box' if withbox else ''),
                           z3.Implies(z3.And(z3.Or(has, extra), ON(*sg),
                                             ON(*qc), inb), r), f.key)
                eng.oblige(s2.copy(), '%s.%s%s: reports only stored '
                           'segments' % (what, fnd, nm),
                           z3.Implies(r, z3.Or(has, extra)), f.key)
                eng.oblige(s2, '%s.%s%s: changes nothing' % (
                    what, fnd, nm), all(s2.heap.get(i) is rec for i, rec in
                                        s1.heap.items()), f.key)
    eng.oblige(fresh_state(), '%s(...): construction completes' % what,
               done > 0)


def between(t):
    """lemma: a point on a segment is between its ends in each coordinate"""
    eng = t.engine()
    a, b, u = z3.Reals('a b u')
    st = fresh_state()
    st.assume(0 <= u, u <= 1)
    p = a + u * (b - a)
    eng.oblige(st.copy().assume(a <= b), 'lemma: between, upwards',
               z3.And(a <= p, p <= b))
    eng.oblige(st.copy().assume(a >= b), 'lemma: between, downwards',
               z3.And(b <= p, p <= a))


TARGETS = [('Node', node), ('between', between),
           ('PMRQuadTree', lambda t: tree(t, True, True)),
           ('SegmentPMRQuadTree (box given)',
            lambda t: tree(t, True, False)),
           ('SegmentPMRQuadTree (no box given)',
            lambda t: tree(t, False, False))]
