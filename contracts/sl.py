"""Sheets, joints and decision states at the level of point sets.

A Geom1D / Geom2D is its set of points: mem(x) for a position x along a
joint (a real number), mem(p) for a point p of a sheet (abstract sort Pt).
The set operations are those of C02-C06 and C12-C13; they are exact apart
from end points and edges, so x and p stand for points in general position.
Persistent maps are total or partial functions of their keys.
"""
from contracts.common import *
from pyvc.lib import HV, as_seq, islistlike
from pyvc import lib as L

PC = 'plycutter.'
SP, SBM, HEU = PC + 'sheetplex:', PC + 'sheetbuild:', PC + 'heuristics:'
G1K = G + 'geom1d:Geom1D'
G2K = I2 + 'geom2d_simple_holes:Geom2D_Py_Simple_Holes'
Z, RS, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PT = z3.DeclareSort('Pt')
DIM = {1: RS, 2: PT}
F_ = z3.BoolVal(False)

SIDES = z3.DeclareSort('Side')
SHEETS = z3.DeclareSort('SheetS')
INTERS = z3.DeclareSort('Inter')
inter_of = z3.Function('intersection', SIDES, INTERS)
sheet_of = z3.Function('sheet', SIDES, SHEETS)
idx_of = z3.Function('idx', SIDES, Z)
side_of = [z3.Function('side%d' % i, INTERS, SIDES) for i in (0, 1)]
in_model = z3.Function('in.model', INTERS, B)
sheet_in = z3.Function('sheet.in.model', SHEETS, B)
strip = z3.Function('in.strip', SIDES, PT, B)
proj = z3.Function('position', SIDES, PT, RS)
dist = z3.Function('distance', PT, PT, RS)     # gauge of the offset polygon


def pred(eng, name, sort):
    """arbitrary set of points"""
    p = z3.Const('p!%s' % name, sort)
    eng.ictx.append(p)
    try:
        b = eng.fresh(name, B)
    finally:
        eng.ictx.pop()
    return lambda x: z3.substitute(b, (p, x))


def wrap(f, sort, pairs):
    h = z3.Const('hole!%d' % next(L._ids), sort)
    e = z3.substitute(f(h), *pairs)
    return lambda x: z3.substitute(e, (h, x))


# ------------------------------------------------------------ geometry

class GeomV(HV):
    """a point set; fields remember how it was made"""

    def __init__(self, dim, mem, eroded=None):
        self.dim, self.mem = dim, mem
        self.eroded = eroded

    def __repr__(self):
        return 'Geom%dD' % self.dim

    def h_class(self, eng):
        return eng.lookup_func(G1K if self.dim == 1 else G2K)

    def has_op(self, eng, st, nm):
        return eng.class_attr(self.h_class(eng), '__%s__' % nm,
                              st) is not None

    def h_bin(self, eng, st, op, other, rev):
        nm = {'BitAnd': 'and', 'BitOr': 'or', 'Sub': 'sub', 'BitXor': 'xor',
              'Invert': 'invert'}.get(op)
        if nm is None or not self.has_op(eng, st, nm):
            yield st, Exc('TypeError', 'operator %s' % op)
            return
        f = self.mem
        if op == 'Invert':
            yield st, GeomV(self.dim, lambda x: z3.Not(f(x)))
            return
        if other is None or isinstance(other, (Num, str, int)) or (
                isinstance(other, GeomV) and other.dim != self.dim):
            yield st, Exc('TypeError', 'operator %s' % op)
            return
        if not isinstance(other, GeomV) or rev:
            raise Unsupported('%s of %r and %r' % (op, self, other))
        g = other.mem
        m = {'BitAnd': lambda x: z3.And(f(x), g(x)),
             'BitOr': lambda x: z3.Or(f(x), g(x)),
             'Sub': lambda x: z3.And(f(x), z3.Not(g(x))),
             'BitXor': lambda x: z3.Xor(f(x), g(x))}[op]
        yield st, GeomV(self.dim, m)

    def empty(self):
        x = z3.Const('x!%d' % next(L._ids), DIM[self.dim])
        return z3.Not(z3.Exists([x], self.mem(x)))

    def h_truth(self, eng, st):
        for n in ('bool', 'len'):
            if self.has_op(eng, st, n):
                raise Unsupported('truth of a geometry')
        return True

    def h_isnone(self):
        return False

    def h_cmp(self, eng, st, op, other, rev):
        raise Unsupported('comparison of geometries')
        yield

    def h_attr(self, eng, st, name):
        if name == '__class__':
            yield st, self.h_class(eng)
            return
        c = self.h_class(eng)
        if eng.class_attr(c, name, st) is None and name != 'intervals':
            yield st, Exc('AttributeError', name)
            return
        m = getattr(self, 'm_' + name, None)
        if m is None:
            if name in ('intervals',):
                yield st, self.intervals(eng, st)
                return
            raise Unsupported('%r.%s' % (self, name))
        yield st, PyFn(lambda e, s, a, k: m(e, s, *a, **k), name)

    def m_is_empty(self, eng, st):
        yield st, self.empty()

    def m_area(self, eng, st):
        yield st, Measure(self)

    def m_measure1d(self, eng, st):
        yield st, Measure(self)

    def m_buffer(self, eng, st, amount):
        a = L.lift(amount) if not isinstance(amount, Junk) else None
        a = None if a is None else z3.simplify(R(a))
        f = self.mem
        if a is not None and z3.is_rational_value(a):
            v = a.as_fraction()
            if v == 0:
                yield st, self
                return
            if eng.attr_hooks.get('exact_buffer') and v > 0:
                yield st, dilated(self, a)
                return
            r = pred(eng, 'buf', DIM[self.dim])
            if v > 0:
                er = self.eroded
                if er is not None and v <= er[1]:
                    # opening: inside the original (C05, C13)
                    o = er[0].mem
                    yield st, GeomV(self.dim, lambda x: z3.And(
                        o(x), z3.Or(f(x), r(x))))
                else:
                    yield st, GeomV(self.dim, lambda x: z3.Or(f(x), r(x)))
            else:
                yield st, GeomV(self.dim, lambda x: z3.And(f(x), r(x)),
                                (self, -v))
            return
        if a is None:
            r = pred(eng, 'buf', DIM[self.dim])
            yield st, GeomV(self.dim, r)
            return
        if eng.attr_hooks.get('exact_buffer'):
            if solve.prove(eng.axioms, st.pc, a > 0, 2000).ok:
                yield st, dilated(self, a)
                return
        r = pred(eng, 'buf', DIM[self.dim])
        yield st, GeomV(self.dim, lambda x: z3.If(
            a > 0, z3.Or(f(x), r(x)), z3.If(a < 0, z3.And(f(x), r(x)),
                                            f(x))))

    def m_filter(self, eng, st, f):
        raise Unsupported('filter of a geometry')
        yield

    def m_polygons(self, eng, st):
        n = eng.fresh('pieces', Z)
        st.assume(n >= 0)
        st.assume((n == 0) == self.empty())
        k = z3.Int('piece!%d' % next(L._ids))
        eng.ictx.append(k)
        try:
            p = pred(eng, 'piece', DIM[self.dim])
        finally:
            eng.ictx.pop()
        f = self.mem

        def get(i):
            q_ = wrap(p, DIM[self.dim], [(k, zi(i))])
            return GeomV(self.dim, lambda x: z3.And(f(x), q_(x)))
        yield st, L.eng_alloc(st, FSeq(n, get, None, 'polygons'))

    def intervals(self, eng, st):
        n = eng.fresh('intervals', Z)
        st.assume(n >= 0, (n == 0) == self.empty())
        k = z3.Int('iv!%d' % next(L._ids))
        eng.ictx.append(k)
        try:
            lo, hi = eng.fresh('lo', RS), eng.fresh('hi', RS)
        finally:
            eng.ictx.pop()
        x = z3.Const('x!%d' % next(L._ids), RS)
        f = self.mem
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), lo < hi)))
        st.assume(z3.ForAll([k, x], z3.Implies(z3.And(
            0 <= k, k < n, lo < x, x < hi), f(x))))

        def get(i):
            return tuple(Num('mpq', z3.substitute(e, (k, zi(i))))
                         for e in (lo, hi))
        return SeqV(FSeq(n, get, None, 'intervals'), 'tuple')

    def m_get_intervals(self, eng, st):
        yield st, self.intervals(eng, st)

    def h_shape(self, eng, st):
        return GShape(self.dim, self)

    def h_ite(self, c, b):
        if not isinstance(b, GeomV) or b.dim != self.dim:
            raise Unsupported('if-then-else of %r and %r' % (self, b))
        f, g = self.mem, b.mem
        return GeomV(self.dim, lambda x: z3.If(c, f(x), g(x)))

    def h_subst(self, pairs):
        e = self.eroded
        return GeomV(self.dim, wrap(self.mem, DIM[self.dim], pairs),
                     None if e is None else (e[0].h_subst(pairs), e[1]))


def dilated(g, a):
    """all points within a of g (C13; the distance is the gauge of the
    offset polygon)"""
    def mem(x):
        y = z3.Const('y!%d' % next(L._ids), DIM[g.dim])
        d = dist(x, y) if g.dim == 2 else z3.If(x > y, x - y, y - x)
        return z3.Exists([y], z3.And(d <= a, g.mem(y)))
    return GeomV(g.dim, mem)


class GShape:
    """val: the value itself, as long as it is always the same object"""
    name = 'geom'

    def __init__(self, dim, val=None):
        self.dim, self.val = dim, val

    def __eq__(self, o):
        return isinstance(o, GShape) and o.dim == self.dim and \
            o.val is self.val

    def join(self, o):
        if not isinstance(o, GShape) or o.dim != self.dim:
            raise Unsupported('geometries of different dimension')
        return self if o.val is self.val else GShape(self.dim)

    def havoc(self, eng, st, name):
        if self.val is not None:
            return self.val
        return GeomV(self.dim, pred(eng, name, DIM[self.dim]))


def nogeom(dim):
    return GeomV(dim, lambda x: F_)


TINY = 0.011


class Measure(HV):
    """area or length: zero exactly for the empty set.

    The self checks compare measures with small tolerances; here a measure
    below 0.011 counts as that of the empty set."""

    def __init__(self, g):
        self.g = g

    def h_cmp(self, eng, st, op, other, rev):
        c = L.lift(other)
        if c is not None and not isinstance(c, X):
            v = z3.simplify(R(c))
            if z3.is_rational_value(v):
                v = v.as_fraction()
                e = self.g.empty()
                op2 = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE',
                       'GtE': 'LtE'}.get(op, op) if rev else op
                if v < 0:
                    yield st, op2 in ('Gt', 'GtE', 'NotEq')
                    return
                if v <= TINY:
                    if op2 in ('Lt', 'LtE', 'Eq') and not (
                            op2 == 'Lt' and v == 0):
                        yield st, e
                        return
                    if op2 in ('Gt', 'GtE', 'NotEq') and not (
                            op2 == 'GtE' and v == 0):
                        yield st, z3.Not(e)
                        return
                b = eng.fresh('measure', B)
                if op2 in ('Lt', 'LtE'):
                    st.assume(z3.Implies(e, b))
                elif op2 in ('Gt', 'GtE'):
                    st.assume(z3.Implies(b, z3.Not(e)))
                yield st, b
                return
        yield st, eng.fresh('measure', B)

    def h_bin(self, eng, st, op, other, rev):
        yield st, Junk()

    def h_truth(self, eng, st):
        return z3.Not(self.g.empty())

    def h_shape(self, eng, st):
        return JunkShape()

    def h_ite(self, c, b):
        return Junk()

    def h_subst(self, pairs):
        return Measure(self.g.h_subst(pairs))


class Junk(HV):
    """any number, text or array (no effects)"""

    def h_attr(self, eng, st, name):
        if name in ('append', 'extend', 'add', 'update', 'sort', 'remove',
                    'pop', 'insert', 'clear', 'fill', 'shuffle'):
            raise Unsupported('mutation of an unknown value')
        yield st, Junk()

    def h_item(self, eng, st, i):
        yield st, Junk()

    def h_bin(self, eng, st, op, other, rev):
        yield st, Junk()

    def h_truth(self, eng, st):
        return eng.fresh('any', B)

    def h_cmp(self, eng, st, op, other, rev):
        yield st, eng.fresh('any', B)

    def h_contains(self, eng, st, v):
        yield st, eng.fresh('any', B)

    def h_call(self, eng, st, args, kw):
        for a in list(args) + list(kw.values()):
            if isinstance(a, Ref):
                raise Unsupported('object passed to an unknown function')
        yield st, Junk()

    def h_ext(self, eng, st, name, args):
        if name == 'cls:int':
            return Num('int', eng.fresh('any', Z))
        if name == 'cls:mpq':
            return Num('mpq', eng.fresh('any', RS))
        if name.split(':')[-1].split('.')[0] in ('numpy', 'math') or \
                name in ('cls:float', 'builtins.abs', 'builtins.min',
                         'builtins.max', 'builtins.round'):
            return Junk()

    def h_seq(self, eng, st):
        n = eng.fresh('any', Z)
        st.assume(n >= 0)
        return FSeq(n, lambda i: Junk(), None, 'junk')

    def h_len(self, eng, st):
        n = eng.fresh('any', Z)
        st.assume(n >= 0)
        return Num('int', n)

    def h_shape(self, eng, st):
        return JunkShape()

    def h_ite(self, c, b):
        return self

    def h_subst(self, pairs):
        return self

    def h_isnone(self):
        return False

    def h_class(self, eng):
        raise Unsupported('class of an unknown value')


class JunkShape:
    name = 'any'

    def __eq__(self, o):
        return isinstance(o, JunkShape)

    def join(self, o):
        return self

    def havoc(self, eng, st, name):
        return Junk()


# ------------------------------------------------------------ records

class RecV(HV):
    """a persistent record: a value"""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def __repr__(self):
        return 'Rec(%s)' % self.cls.key

    def h_class(self, eng):
        return self.cls

    def h_with(self, k, v):
        d = dict(self.fields)
        d[k] = v
        return RecV(self.cls, d)

    def h_attr(self, eng, st, name):
        if name in self.fields:
            yield st, self.fields[name]
        elif name == '__class__':
            yield st, self.cls
        elif name == 'set':
            def f(e, s, a, k):
                d = dict(self.fields)
                if a:
                    if len(a) != 2 or not isinstance(a[0], str):
                        raise Unsupported('record set')
                    d[a[0]] = a[1]
                d.update(k)
                yield s, RecV(self.cls, d)
            yield st, PyFn(f, 'set')
        elif name == 'transform':
            def f(e, s, a, k):
                return transform(e, s, self, a)
            yield st, PyFn(f, 'transform')
        elif name in ('get', 'keys', 'items', 'values', 'remove', 'update',
                      'evolver', 'discard', 'serialize'):
            raise Unsupported('record method ' + name)
        else:
            r = eng.class_attr(self.cls, name, st)
            if r is None or (isinstance(r, tuple) and
                             'field(' in __import__('ast').unparse(r[2])):
                yield st, Exc('AttributeError', name)
                return
            yield from eng.user_attr(st, self, self.cls, name)

    def h_item(self, eng, st, i):
        if isinstance(i, str) and i in self.fields:
            yield st, self.fields[i]
        else:
            yield st, Exc('KeyError', str(i))

    def h_truth(self, eng, st):
        return True

    def h_isnone(self):
        return False

    def h_cmp(self, eng, st, op, other, rev):
        raise Unsupported('record comparison')
        yield

    def h_shape(self, eng, st):
        from pyvc.loops import shape
        return RShape(self.cls, {k: shape(eng, st, v)
                                 for k, v in self.fields.items()}, self)

    def h_ite(self, c, b):
        if not isinstance(b, RecV) or b.cls.key != self.cls.key or \
                set(b.fields) - {'dbg'} != set(self.fields) - {'dbg'}:
            raise Unsupported('if-then-else of records')
        return RecV(self.cls, {k: vite(c, v, b.fields[k])
                               for k, v in self.fields.items()
                               if k in b.fields})

    def h_subst(self, pairs):
        return RecV(self.cls, {k: vsubst(v, pairs)
                               for k, v in self.fields.items()})


class RShape:
    name = 'record'

    def __init__(self, cls, fields, val=None):
        self.cls, self.fields, self.val = cls, fields, val

    def __eq__(self, o):
        return isinstance(o, RShape) and o.cls.key == self.cls.key and \
            o.val is self.val and o.fields == self.fields

    def join(self, o):
        from pyvc.loops import join
        if not isinstance(o, RShape) or o.cls.key != self.cls.key:
            raise Unsupported('records of different classes')
        if self.val is not None and o.val is self.val:
            return self
        ks = [k for k in self.fields if k in o.fields]
        for k in set(self.fields) ^ set(o.fields):
            if k != 'dbg':
                raise Unsupported('records with different fields')
        return RShape(self.cls, {k: join(self.fields[k], o.fields[k])
                                 for k in ks})

    def havoc(self, eng, st, name):
        from pyvc.loops import havoc, expand
        if self.val is not None:
            return self.val
        d = {}
        for k, s in self.fields.items():
            al = expand(s)
            if len(al) != 1:
                raise Unsupported('record field of several shapes')
            d[k] = havoc(eng, st, al[0], name + '.' + k)
        return RecV(self.cls, d)


def transform(eng, st, o, args):
    if len(args) != 2:
        raise Unsupported('transform arguments')
    path = as_seq(eng, st, args[0])
    if not isinstance(path, CSeq):
        raise Unsupported('transform path')
    yield from L._transform(eng, st, o, list(path.items), args[1])


# ------------------------------------------------------------ maps

_parts = {}


def parts(f):
    """the conjuncts of f, simplified"""
    r = _parts.get(f.get_id())
    if r is None or not r[0].eq(f):
        def go(g):
            if z3.is_and(g):
                for h in g.children():
                    yield from go(h)
            else:
                yield g
        r = (f, [] if z3.is_quantifier(f) else list(go(z3.simplify(f))))
        if len(_parts) > 50000:
            _parts.clear()
        _parts[f.get_id()] = r
    return r[1]


def known(st, c):
    """c is among the facts of the state (no solver)"""
    want = parts(bz(c))
    if all(z3.is_true(w) for w in want):
        return True
    have = {g.get_id() for p in st.pc for g in parts(p)}
    return all(z3.is_true(w) or w.get_id() in have for w in want)


def unfold(eng, L_, k):
    """an enumerated key is a key"""
    en = getattr(L_.seq, 'enum', None)
    if en is None:
        return []
    m, at, pos = en
    return [z3.simplify(bz(m.dom(at(k)))), pos(at(k)) == k]


class MapV(HV):
    """persistent map: dom(key term), get(key term) (meaningful in dom)"""

    def __init__(self, ks, dom, get, name='map'):
        self.ks, self.dom, self.get, self.name = ks, dom, get, name

    def __repr__(self):
        return 'Map(%s)' % self.name

    def key(self, k):
        if not isinstance(k, Sym) or (self.ks is not None and
                                      k.sc is not self.ks):
            raise Unsupported('key %r of %r' % (k, self))
        return k.e

    def put(self, k, v, st=None):
        if self.ks is None:
            if not isinstance(k, Sym):
                raise Unsupported('key %r' % (k,))
            e = k.e
            return MapV(k.sc, lambda x: x == e, lambda x: v, self.name)
        e = self.key(k)
        d, g = self.dom, self.get
        nd = d if st is not None and known(st, d(e)) else \
            (lambda x: z3.Or(x == e, bz(d(x))))
        return MapV(self.ks, nd, lambda x: vite(x == e, v, g(x)), self.name)

    def cut(self, k):
        e = self.key(k)
        d, g = self.dom, self.get
        return MapV(self.ks, lambda x: z3.And(x != e, d(x)), g, self.name)

    def lookup(self, eng, st, k, miss):
        if self.ks is None:
            yield st, miss()
            return
        e = self.key(k)
        if known(st, self.dom(e)):
            yield st, self.get(e)
            return
        for s, b in eng.split(st, bz(self.dom(e))):
            yield s, (self.get(e) if b else miss())

    def h_item(self, eng, st, i):
        return self.lookup(eng, st, i, lambda: Exc('KeyError', 'map'))

    def h_contains(self, eng, st, v):
        yield st, (False if self.ks is None else bz(self.dom(self.key(v))))

    def h_len(self, eng, st):
        if self.ks is None:
            return 0
        n = eng.fresh('len', Z)
        x = z3.Const('k!%d' % next(L._ids), self.ks.sort)
        st.assume(n >= 0, (n > 0) == z3.Exists([x], self.dom(x)))
        return Num('int', n)

    def h_truth(self, eng, st):
        if self.ks is None:
            return False
        x = z3.Const('k!%d' % next(L._ids), self.ks.sort)
        return z3.Exists([x], bz(self.dom(x)))

    def h_isnone(self):
        return False

    def h_cmp(self, eng, st, op, other, rev):
        raise Unsupported('comparison of maps')
        yield

    def enum(self, eng, st):
        """the keys in some order: (n, at, pos)"""
        if self.ks is None:
            return None
        S_ = self.ks.sort
        n = eng.fresh('n', Z)
        j = z3.Int('j!%d' % next(L._ids))
        k = z3.Const('k!%d' % next(L._ids), S_)
        eng.ictx.append(j)
        ate = eng.fresh('at', S_)
        eng.ictx.pop()
        eng.ictx.append(k)
        pose = eng.fresh('pos', Z)
        eng.ictx.pop()
        at = lambda i: z3.substitute(ate, (j, i))
        pos = lambda e: z3.substitute(pose, (k, e))
        st.assume(n >= 0)
        st.assume(z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n), z3.And(bz(self.dom(ate)),
                                          pos(ate) == j)), patterns=[ate]))
        st.assume(z3.ForAll([k], z3.Implies(
            bz(self.dom(k)), z3.And(0 <= pose, pose < n, at(pose) == k)),
            patterns=[pose]))
        return n, at, pos

    def seq(self, eng, st, what):
        r = self.enum(eng, st)
        if r is None:
            return CSeq(())
        n, at, pos = r

        def get(i):
            k = at(zi(i))
            if what == 'keys':
                return Sym(self.ks, k)
            if what == 'values':
                return self.get(k)
            return (Sym(self.ks, k), self.get(k))
        q_ = FSeq(n, get, None, what)
        q_.enum = (self, at, pos)
        return q_

    def h_seq(self, eng, st):
        return self.seq(eng, st, 'keys')

    def h_attr(self, eng, st, name):
        if name in ('keys', 'values', 'items'):
            def f(e, s, a, k):
                yield s, SeqV(self.seq(e, s, name), 'seq')
        elif name == 'get':
            def f(e, s, a, k):
                d = a[1] if len(a) > 1 else None
                yield from self.lookup(e, s, a[0], lambda: d)
        elif name == 'set':
            def f(e, s, a, k):
                yield s, self.put(a[0], a[1], s)
        elif name in ('remove', 'discard'):
            def f(e, s, a, k):
                if name == 'discard':
                    yield s, self.cut(a[0])
                    return
                for s1, b in e.split(s, bz(self.dom(self.key(a[0])))):
                    yield s1, (self.cut(a[0]) if b else Exc('KeyError', ''))
        elif name == 'transform':
            def f(e, s, a, k):
                return transform(e, s, self, a)
        elif name == 'copy':
            def f(e, s, a, k):
                yield s, self
        else:
            raise Unsupported('map method ' + name)
        yield st, PyFn(f, name)

    def h_copy(self, eng, st):
        return st.alloc(AbsRec('dict', DictP(self)))

    def h_shape(self, eng, st):
        from pyvc.loops import shape
        v = None
        if self.ks is not None:
            k = z3.Const('k!s%d' % len(NEST), self.ks.sort)
            NEST.append(k)
            try:
                v = shape(eng, st, self.get(k))
            finally:
                NEST.pop()
            d = z3.simplify(bz(self.dom(k)))
            if any(occurs(o, d) for o in NEST):
                d = None
            else:
                d = z3.substitute(d, (k, z3.Const('k!s', self.ks.sort)))
        return MShape(self.ks, v, self, None if v is None else d)

    def h_ite(self, c, b):
        if isinstance(b, Ref) or not isinstance(b, MapV):
            raise Unsupported('if-then-else of maps')
        if self.ks is None and b.ks is None:
            return self
        if self.ks is None:
            return b.guard(z3.Not(c))
        if b.ks is None:
            return self.guard(c)
        if b.ks is not self.ks:
            raise Unsupported('if-then-else of maps')
        d, g, d2, g2 = self.dom, self.get, b.dom, b.get
        return MapV(self.ks, lambda x: z3.If(c, bz(d(x)), bz(d2(x))),
                    lambda x: vite(c, g(x), g2(x)), self.name)

    def guard(self, c):
        d = self.dom
        return MapV(self.ks, lambda x: z3.And(c, bz(d(x))), self.get,
                    self.name)

    def h_subst(self, pairs):
        if self.ks is None:
            return self
        d = wrap(lambda x: bz(self.dom(x)), self.ks.sort, pairs)
        g = self.get

        def get(x):
            h = z3.Const('hole!%d' % next(L._ids), self.ks.sort)
            return vsubst(vsubst(g(h), pairs), [(h, x)])
        return MapV(self.ks, d, get, self.name)


NEST = []


class MShape:
    name = 'map'

    def __init__(self, ks, v, val=None, dom=None):
        self.ks, self.v, self.val, self.dom = ks, v, val, dom

    def sdom(self, o):
        return self.dom is not None and o.dom is not None and \
            self.dom.eq(o.dom)

    def __eq__(self, o):
        return isinstance(o, MShape) and o.ks is self.ks and \
            o.val is self.val and o.v == self.v and \
            (self.sdom(o) or self.dom is o.dom)

    def join(self, o):
        from pyvc.loops import join
        if not isinstance(o, MShape):
            raise Unsupported('map and other value')
        if self.val is not None and o.val is self.val:
            return self
        if self.ks is None:
            return MShape(o.ks, o.v)
        if o.ks is None:
            return MShape(self.ks, self.v)
        if o.ks is not self.ks:
            raise Unsupported('maps of different keys')
        return MShape(self.ks, join(self.v, o.v), None,
                      self.dom if self.sdom(o) else None)

    def havoc(self, eng, st, name):
        from pyvc.loops import havoc, expand
        if self.val is not None:
            return self.val
        if self.ks is None:
            return NOMAP
        al = expand(self.v)
        if len(al) != 1:
            raise Unsupported('map values of several shapes')
        k = z3.Const('key!%d' % next(L._ids), self.ks.sort)
        eng.ictx.append(k)
        try:
            if self.dom is not None:
                d = z3.substitute(self.dom, (z3.Const(
                    'k!s', self.ks.sort), k))
            else:
                d = eng.fresh(name + '.dom', B)
            v = havoc(eng, st, al[0], name)
        finally:
            eng.ictx.pop()
        return MapV(self.ks, lambda x: z3.substitute(d, (k, x)),
                    lambda x: vsubst(v, [(k, x)]), name)


NOMAP = MapV(None, lambda x: False, None, 'empty')


class DictP:
    """payload of a mutable dict"""

    def __init__(self, m):
        self.m = m

    def h_item(self, eng, st, i):
        return self.m.h_item(eng, st, i)

    def h_setref(self, eng, st, ref, i, v):
        st.heap[ref.id] = AbsRec('dict', DictP(self.m.put(i, v, st)))
        yield st, None

    def h_delref(self, eng, st, ref, i):
        for s, b in eng.split(st, F_ if self.m.ks is None else bz(
                self.m.dom(self.m.key(i)))):
            if b:
                s.heap[ref.id] = AbsRec('dict', DictP(self.m.cut(i)))
                yield s, None
            else:
                yield s, Exc('KeyError', '')

    def h_contains(self, eng, st, v):
        return self.m.h_contains(eng, st, v)

    def h_len(self, eng, st):
        return self.m.h_len(eng, st)

    def h_truth(self, eng, st):
        return self.m.h_truth(eng, st)

    def h_seq(self, eng, st):
        return self.m.h_seq(eng, st)

    def h_attrref(self, eng, st, ref, name):
        if name in ('keys', 'values', 'items', 'get'):
            yield from self.m.h_attr(eng, st, name)
            return
        if name == 'copy':
            def f(e, s, a, k):
                yield s, s.alloc(AbsRec('dict', s.heap[ref.id].data))
        elif name == 'pop':
            def f(e, s, a, k):
                m = s.heap[ref.id].data.m
                for s1, b in e.split(s, F_ if m.ks is None else bz(
                        m.dom(m.key(a[0])))):
                    if b:
                        s1.heap[ref.id] = AbsRec('dict', DictP(m.cut(a[0])))
                        yield s1, m.get(m.key(a[0]))
                    elif len(a) > 1:
                        yield s1, a[1]
                    else:
                        yield s1, Exc('KeyError', '')
        elif name == 'clear':
            def f(e, s, a, k):
                s.heap[ref.id] = AbsRec('dict', DictP(NOMAP))
                yield s, None
        else:
            raise Unsupported('dict method ' + name)
        yield st, PyFn(f, name)

    def h_habs(self, cur, old):
        return None     # see AbsShape in shape_of_dict

    def h_binref(self, eng, st, ref, op, other, inplace):
        raise Unsupported('operator on dict')
        yield


class DShape:
    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, DShape) and o.m == self.m

    def join(self, o):
        return DShape(self.m.join(o.m))

    def havoc(self, eng, st, name):
        return DictP(self.m.havoc(eng, st, name))


def _habs(self, cur, old):
    e, st = DictP.engine
    s = DShape(self.m.h_shape(e, st))
    b = cur if cur is not None else DShape(old.m.h_shape(e, st))
    return b.join(s)


DictP.h_habs = _habs


def as_map(eng, st, v):
    if isinstance(v, MapV):
        return v
    if isinstance(v, Ref):
        rec = st.heap[v.id]
        if isinstance(rec, AbsRec) and isinstance(rec.data, DictP):
            return rec.data.m
        if isinstance(rec, DictRec) and not rec.d:
            return NOMAP
    raise Unsupported('map of %r' % (v,))


def x_pmap(eng, st, f, args, kw):
    if kw:
        raise Unsupported('pmap arguments')
    yield st, (as_map(eng, st, args[0]) if args else NOMAP)


def dict_new(eng, st):
    yield st, st.alloc(AbsRec('dict', DictP(NOMAP)))


def dict_literal(eng, n, st):
    def go(i, s, m):
        if i == len(n.keys):
            yield s, s.alloc(AbsRec('dict', DictP(m)))
            return
        if n.keys[i] is None:
            raise Unsupported('** in a dict')
        for s1, vs in eng.evs([n.keys[i], n.values[i]], s):
            if isinstance(vs, Exc):
                yield s1, vs
            else:
                yield from go(i + 1, s1, m.put(*vs))
    yield from go(0, st, NOMAP)


def dictcomp(eng, n, st):
    """{key(x): value(x) for x in seq if cond(x)} over the keys or items of a
    map, or its values, where the keys of the result are in one-to-one
    correspondence with those of the map"""
    return _dictcomp(eng, n, st)


def _dictcomp(eng, n, st):
    if len(n.generators) != 1:
        raise Unsupported('dict comprehension')
    g = n.generators[0]
    for s, it in eng.ev(g.iter, st):
        if isinstance(it, Exc):
            yield s, it
            continue
        seq = as_seq(eng, s, it, iterate=True)
        if seq is None:
            raise Unsupported('dict comprehension over %r' % (it,))
        yield from comp_map(eng, n, s, seq)


def comp_map(eng, n, st, seq):
    g = n.generators[0]
    outer = st.fid
    fid = 'comp%d' % next(L._ids)

    def elem(s, x):
        s.frames[fid] = {'__mod__': s.frames[outer]['__mod__'],
                         '__parent__': outer, '__globals__': set()}
        s.fid = fid
        for s1, e in eng.assign(g.target, x, s):
            if e is not None:
                yield s1, e
                continue
            yield from conds(s1, list(g.ifs))

    def conds(s, ifs):
        if ifs:
            for s1, c in eng.ev(ifs[0], s):
                if isinstance(c, Exc):
                    yield s1, c
                    continue
                for s2, t in eng.truth(c, s1):
                    for s3, b in eng.split(s2, t):
                        if b:
                            yield from conds(s3, ifs[1:])
                        else:
                            s3.fid = outer
                            yield s3, ('none',)
            return
        for s1, vs in eng.evs([n.key, n.value], s):
            s1.fid = outer
            yield s1, (vs if isinstance(vs, Exc) else ('some', vs))
    if isinstance(seq, CSeq):
        acc = [(st, NOMAP)]
        for x in seq.items:
            nxt = []
            for s, m in acc:
                if isinstance(m, Exc):
                    nxt.append((s, m))
                    continue
                for s1, r in elem(s, x):
                    if isinstance(r, Exc):
                        nxt.append((s1, r))
                    elif r[0] == 'none':
                        nxt.append((s1, m))
                    else:
                        nxt.append((s1, m.put(*r[1])))
            acc = nxt
        for s, m in acc:
            yield s, (m if isinstance(m, Exc)
                      else s.alloc(AbsRec('dict', DictP(m))))
        return
    en = getattr(seq, 'enum', None)
    if en is None:
        raise Unsupported('dict comprehension over an unknown sequence')
    src, at, pos = en
    i = z3.Int('ix!%d' % next(L._ids))
    nn = zi(seq.n)
    sub = st.copy()
    sub.assume(0 <= i, i < nn)
    base = len(sub.pc)
    eng.ictx.append(i)
    try:
        outs = list(elem(sub, seq.get(i)))
    finally:
        eng.ictx.pop()
    good = []
    rest = []
    for s, r in outs:
        c = bz(band(*s.pc[base:])) if len(s.pc) > base else z3.BoolVal(True)
        if isinstance(r, Exc):
            j = eng.fresh('fail', Z)
            s2 = st.copy()
            s2.assume(0 <= j, j < nn, z3.substitute(c, (i, j)))
            if eng.feasible(s2):
                yield s2, r
            continue
        for rr, rec in s.heap.items():
            if rr in st.heap and st.heap[rr] is not rec:
                raise Unsupported('effect inside a comprehension')
        rest.append(c)
        if r[0] == 'some':
            good.append((c, r[1][0], r[1][1]))
    s = st
    if rest:
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn),
                                           z3.Or(rest))))
    else:
        s.assume(nn == 0)
    if not good:
        yield s, s.alloc(AbsRec('dict', DictP(NOMAP)))
        return
    c0, k0, v0 = good[-1]
    if not isinstance(k0, Sym):
        raise Unsupported('key %r' % (k0,))
    ke, cond = k0.e, c0
    val = v0
    for c, k, v in good[-2::-1]:
        ke = z3.If(c, k.e, ke)
        val = vite(c, v, val)
        cond = z3.Or(c, cond)
    # the position of a key of the result
    ks = k0.sc
    if ks.sort.eq(src.ks.sort) and z3.simplify(ke).eq(
            z3.simplify(at(i))):
        ps = pos
        link = lambda x: z3.BoolVal(True)
    else:
        raise Unsupported('keys of a dict comprehension')

    def dom(x):
        return z3.And(bz(src.dom(x)), z3.substitute(
            cond, (i, ps(x))))

    def get(x):
        return vsubst(val, [(i, ps(x))])
    yield s, s.alloc(AbsRec('dict', DictP(MapV(ks, dom, get, 'comp'))))


# ------------------------------------------------------------ the model

def mk_schemas(eng):
    ID = {}
    sheetid = Schema('sheet id', SHEETS)
    interid = Schema('joint id', INTERS)
    sideid = Schema('side id', SIDES)
    side = Schema('side', SIDES, eng.lookup_func(SP + 'InterSide'))
    inter = Schema('joint', INTERS, eng.lookup_func(SP + 'Intersection'))
    sheet = Schema('sheet', SHEETS, eng.lookup_func(SP + 'Sheet'))

    def a_idx(e, st, o):
        i = idx_of(o.e)
        st.assume(0 <= i, i <= 1)
        return Num('int', i)

    def a_inter(e, st, o):
        k = inter_of(o.e)
        return Sym(interid, k)
    side.attrs.update(
        id=lambda e, st, o: Sym(sideid, o.e), idx=a_idx,
        intersection=a_inter,
        sheet=lambda e, st, o: Sym(sheetid, sheet_of(o.e)))

    def getitem(e, st, o, a, k):
        # (joint id, sheet id)
        if isinstance(a[0], int) and a[0] in (0, 1):
            yield st, (Sym(interid, inter_of(o.e)),
                       Sym(sheetid, sheet_of(o.e)))[a[0]]
        else:
            raise Unsupported('item of a side id')
    sideid.methods['getitem'] = getitem
    sideid.attrs['seq'] = lambda e, st, o: CSeq((
        Sym(interid, inter_of(o.e)), Sym(sheetid, sheet_of(o.e))))

    def a_sides(e, st, o):
        s = [Sym(side, f(o.e)) for f in side_of]
        st.assume(*inter_facts(o.e))
        return tuple(s)
    inter.attrs.update(id=lambda e, st, o: Sym(interid, o.e), sides=a_sides)
    def g2(nm):
        f = z3.Function(nm, SHEETS, PT, B)
        return lambda e, st, o: GeomV(2, lambda p: f(o.e, p))
    fc = [g2('face%d' % i) for i in (0, 1)]
    sheet.attrs.update(id=lambda e, st, o: Sym(sheetid, o.e),
                       faces=lambda e, st, o: tuple(f(e, st, o)
                                                    for f in fc),
                       **{n: g2(n) for n in ('slices_max', 'slices_min',
                                             'both_faces')})
    eng.SC = dict(side=side, inter=inter, sheet=sheet, sheetid=sheetid,
                  interid=interid, sideid=sideid)
    return eng.SC


def inter_facts(k):
    """a joint of the model has one side each on two different sheets"""
    out = []
    for i in (0, 1):
        s = side_of[i](k)
        out += [idx_of(s) == i, inter_of(s) == k, sheet_in(sheet_of(s))]
    out.append(sheet_of(side_of[0](k)) != sheet_of(side_of[1](k)))
    return [z3.Implies(in_model(k), z3.And(out))]


def side_in(s):
    """s is a side of a joint of the model"""
    k = inter_of(s)
    return z3.And(in_model(k), z3.Or(s == side_of[0](k), s == side_of[1](k)))


def opp(s):
    k = inter_of(s)
    return z3.If(idx_of(s) == 0, side_of[1](k), side_of[0](k))


def model(eng):
    """the sheet model: arbitrary, well formed (C21)"""
    sc = eng.SC
    return RecV(eng.lookup_func(SP + 'SheetPlex'), {
        'sheets': MapV(sc['sheetid'], lambda x: sheet_in(x),
                       lambda x: Sym(sc['sheet'], x), 'sheets'),
        'intersections': MapV(sc['interid'], lambda x: in_model(x),
                              lambda x: Sym(sc['inter'], x), 'joints')})


def c_intersides(eng, st, f, args, kw):
    """SheetPlex.intersides: every side (of the sheet) once (C21)"""
    sc = eng.SC
    sh = args[1] if len(args) > 1 else kw.get('sheet_id')
    if sh is None:
        dom = lambda x: side_in(x)
    else:
        if not isinstance(sh, Sym) or sh.sc is not sc['sheetid']:
            raise Unsupported('sheet id %r' % (sh,))
        dom = lambda x: z3.And(side_in(x), sheet_of(x) == sh.e)
    m = MapV(sc['sideid'], dom, lambda x: Sym(sc['side'], x), 'sides')
    yield st, SeqV(m.seq(eng, st, 'values'), 'iter')


def c_interside(eng, st, f, args, kw):
    """SheetPlex.interside: the side with this id (C21)"""
    v = args[1]
    if not isinstance(v, Sym) or v.sc is not eng.SC['sideid']:
        raise Unsupported('side id %r' % (v,))
    eng.oblige(st, 'SheetPlex.interside(...): the side is in the model',
               side_in(v.e), f.key)
    st.assume(*inter_facts(inter_of(v.e)))
    yield st, Sym(eng.SC['side'], v.e)


def c_opposite(eng, st, f, args, kw):
    """InterSide.opposite: the other side of the joint (C21)"""
    v = args[0]
    eng.oblige(st, 'InterSide.opposite(...): the side is in the model',
               side_in(v.e), f.key)
    st.assume(*inter_facts(inter_of(v.e)))
    yield st, Sym(eng.SC['side'], opp(v.e))


def fingers(s, g):
    return GeomV(2, lambda p: z3.And(strip(s, p), g.mem(proj(s, p))))


def c_make_fingers(eng, st, f, args, kw):
    """InterSide.make_fingers: the strip restricted to the positions (C15)"""
    s, g = args[0], args[1] if len(args) > 1 else kw['where']
    if len(args) > 2 or set(kw) - {'where'} or not isinstance(g, GeomV) \
            or g.dim != 1:
        raise Unsupported('arguments of make_fingers')
    yield st, fingers(s.e, g)


def c_project(eng, st, f, args, kw):
    """InterSide.project_to_1d: covers the positions of the points (C15)"""
    s, g = args[0], args[1] if len(args) > 1 else kw['geom2d']
    if not isinstance(g, GeomV) or g.dim != 2:
        raise Unsupported('arguments of project_to_1d')
    r = pred(eng, 'span', RS)
    e = s.e

    def mem(x):
        p = z3.Const('p!%d' % next(L._ids), PT)
        return z3.Or(r(x), z3.Exists([p], z3.And(g.mem(p),
                                                 proj(e, p) == x)))
    yield st, GeomV(1, mem)


def c_union(eng, st, f, args, kw):
    q_ = as_seq(eng, st, args[-1])
    if isinstance(q_, CSeq):
        g = nogeom(2)
        ms = [x.mem for x in q_.items]
        yield st, GeomV(2, lambda p: z3.Or([m(p) for m in ms] + [F_]))
        return
    n = zi(q_.n)

    def mem(p):
        j = z3.Int('j!%d' % next(L._ids))
        return z3.Exists([j], z3.And(0 <= j, j < n, q_.get(j).mem(p)))
    yield st, GeomV(2, mem)


def c_empty(dim):
    def f(eng, st, f, args, kw):
        yield st, nogeom(dim)
    return f


def c_geom1d(eng, st, c, args, kw):
    """Geom1D(intervals): the positions covered by one of them (C02)"""
    q_ = as_seq(eng, st, args[0])
    if q_ is None:
        raise Unsupported('Geom1D of %r' % (args[0],))

    def inside(iv, x):
        p = as_seq(eng, st, iv)
        if not isinstance(p, CSeq) or p.n != 2 or any(
                isinstance(y, Junk) for y in p.items):
            return None
        a, b = (R(L.lift(y)) for y in p.items)
        return z3.And(a < x, x < b)
    if isinstance(q_, CSeq):
        if any(inside(i, z3.Real('x')) is None for i in q_.items):
            yield st, GeomV(1, pred(eng, 'g', RS))
            return
        yield st, GeomV(1, lambda x: z3.Or([inside(i, x) for i in
                                            q_.items] + [F_]))
        return
    n = zi(q_.n)

    def mem(x):
        j = z3.Int('j!%d' % next(L._ids))
        return z3.Exists([j], z3.And(0 <= j, j < n, inside(q_.get(j), x)))
    yield st, GeomV(1, mem)


def c_record(eng, st, c, args, kw):
    if args:
        yield st, Exc('TypeError', 'record arguments')
        return
    yield st, RecV(c, kw)


RECORDS = [SP + 'SheetPlex', SP + 'Sheet', SP + 'Intersection',
           SP + 'InterSide', SBM + 'SheetBuild', HEU + '_Interaction',
           HEU + '_Interactions']


def engine(t, real=()):
    """an engine with the set-level contracts, except those under proof"""
    eng = t.engine()
    mk_schemas(eng)
    cs = {SP + 'SheetPlex.intersides': c_intersides,
          SP + 'SheetPlex.interside': c_interside,
          SP + 'InterSide.opposite': c_opposite,
          SP + 'InterSide.make_fingers': c_make_fingers,
          SP + 'InterSide.project_to_1d': c_project,
          G1K: c_geom1d, G1K + '.empty': c_empty(1),
          G2K + '.empty': c_empty(2), G2K + '.union': c_union}
    for r in RECORDS:
        cs[r] = c_record
    for r in real:
        cs.pop(r, None)
    eng.contracts.update(cs)
    eng.extra_ext.update({'pyrsistent.pmap': x_pmap, 'pyrsistent.m': x_pmap})
    eng.attr_hooks.update(dict_new=dict_new, dict_literal=dict_literal,
                          dictcomp=dictcomp)
    eng.attr_hooks.setdefault('unfold', []).append(unfold)
    st = fresh_state()
    DictP.engine = (eng, st)
    return eng, st


def gmap(eng, ks, dim, name, dom):
    f = z3.Function(name, ks.sort, DIM[dim], B)
    return MapV(ks, dom, lambda k: GeomV(dim, lambda x: f(k, x)), name)


def state(eng, name='', sp=None):
    """an arbitrary decision state of the model"""
    sc = eng.SC
    return RecV(eng.lookup_func(SBM + 'SheetBuild'), {
        'sheetplex': sp or model(eng),
        'sheet_chosen': gmap(eng, sc['sheetid'], 2, name + 'sheet_chosen',
                             sheet_in),
        'sheet_ok': gmap(eng, sc['sheetid'], 2, name + 'sheet_ok', sheet_in),
        'interside_chosen': gmap(eng, sc['sideid'], 1,
                                 name + 'interside_chosen', side_in),
        'interside_ok': gmap(eng, sc['sideid'], 1, name + 'interside_ok',
                             side_in)})


FIELDS = {'sheet_chosen': SHEETS, 'sheet_ok': SHEETS,
          'interside_chosen': SIDES, 'interside_ok': SIDES}


def at(sb, f, k, x):
    """membership of x in the set the state holds in field f for key k"""
    return bz(sb.fields[f].get(k).mem(x))


def dom(sb, f, k):
    return bz(sb.fields[f].dom(k))
