"""Symbolic values of the verifier.

Python ints, strings, bools, None and tuples stand for themselves.  Everything
numeric that is not a known Python int is a Num (exact, z3 arithmetic) or an X
(number that may be NaN / -inf / +inf, exploded into flags and a real).
"""
import itertools
import math
import z3

_ids = itertools.count()


class Unsupported(Exception):
    """The code uses a construct outside the verified subset."""


class Exc:
    """Exceptional outcome of an evaluation."""

    def __init__(self, name, info=''):
        self.name = name
        self.info = info

    def __repr__(self):
        return 'Exc(%s %s)' % (self.name, self.info)


class KX:
    """Unknown numeric class; e says whether it is an exact one; c (if known)
    is an Int term giving the class (index in CODES)."""
    __slots__ = ('e', 'c')
    CODES = ('int', 'mpz', 'mpq', 'Fraction', 'bool', 'float', 'other')

    def __init__(self, e, c=None):
        self.e = e
        self.c = c

    @classmethod
    def of(cls, c):
        """any class; exact: int, mpz, mpq, Fraction"""
        return cls(z3.And(c >= 0, c <= 3), c)

    def test(self, name):
        if self.c is None:
            raise Unsupported('class of a number of unknown class')
        if name in self.CODES[:6]:
            return self.c == self.CODES.index(name)
        return False

    def __eq__(self, o):
        return isinstance(o, KX) and self.e.eq(o.e)

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return 'KX(%s)' % self.e


def kind_ite(c, a, b):
    if a == b:
        return a
    if isinstance(a, KX) or isinstance(b, KX):
        ca, cb = kind_code(a), kind_code(b)
        return KX(z3.If(c, kind_exact(a), kind_exact(b)),
                  None if ca is None or cb is None else z3.If(c, ca, cb))
    return None


def kind_code(k):
    if isinstance(k, KX):
        return k.c
    return z3.IntVal(KX.CODES.index(k)) if k in KX.CODES else None


def kind_exact(k):
    if isinstance(k, KX):
        return k.e
    return z3.BoolVal(k in EXACT or k == 'ex')


def kind_subst(k, pairs):
    return KX(z3.substitute(k.e, *pairs), None if k.c is None else
              z3.substitute(k.c, *pairs)) if isinstance(k, KX) else k


class Num:
    __slots__ = ('kind', 'e')

    def __init__(self, kind, e):
        self.kind = kind
        self.e = e

    def __repr__(self):
        return 'Num(%s,%s)' % (self.kind, self.e)


class X:
    """nan/neg/pos: python bool or z3 Bool; v: z3 real (meaningful if finite)."""
    __slots__ = ('nan', 'neg', 'pos', 'v', 'kind')

    def __init__(self, v, neg=False, pos=False, nan=False, kind='mpq'):
        self.v, self.neg, self.pos, self.nan, self.kind = v, neg, pos, nan, kind

    def __repr__(self):
        return 'X(%s,neg=%s,pos=%s,nan=%s)' % (self.v, self.neg, self.pos,
                                               self.nan)

    def fin(self):
        return bnot(bor(self.nan, self.neg, self.pos))


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%s)' % self.id


class Opaque:
    """A value nothing is known about (log strings, debugging data)."""

    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class Sym:
    """A value of an abstract sort; behaviour given by its schema."""
    __slots__ = ('sc', 'e')

    def __init__(self, sc, e):
        self.sc = sc
        self.e = e

    def __repr__(self):
        return 'Sym(%s,%s)' % (self.sc.name, self.e)


class Schema:
    """Contract-level description of an abstract sort.

    attrs: name -> f(eng, st, sym) -> value
    methods: name -> f(eng, st, sym, args, kw) -> iterator of (st, value)
    ops: 'and','or','sub','xor','invert',... -> same signature
    """

    def __init__(self, name, sort=None, cls=None, attrs=None, methods=None,
                 ops=None, truth=None):
        self.name = name
        self.sort = sort if sort is not None else z3.DeclareSort(name)
        self.cls = cls
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.ops = ops or {}
        self.truth = truth

    def mk(self, e):
        return Sym(self, e)


class Cls:
    """A built-in or numeric class, by name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Cls(%s)' % self.name


class Ext:
    """External (library) function, module or class, by dotted name."""
    __slots__ = ('name', 'self')

    def __init__(self, name, self_=None):
        self.name = name
        self.self = self_

    def __repr__(self):
        return 'Ext(%s)' % self.name


class UserClass:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual

    @property
    def key(self):
        return self.mod + ':' + self.qual

    def __repr__(self):
        return 'UserClass(%s)' % self.key


class UserFunc:
    def __init__(self, mod, node, qual, frame=None, cls=None):
        self.mod, self.node, self.qual = mod, node, qual
        self.frame = frame
        self.cls = cls

    @property
    def key(self):
        return self.mod + ':' + self.qual

    def __repr__(self):
        return 'UserFunc(%s)' % self.key


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return 'Bound(%s)' % self.func


class Module:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Module(%s)' % self.name


class PyFn:
    """A model function supplied by a contract: f(eng, st, args, kw)."""

    def __init__(self, f, name=''):
        self.f = f
        self.name = name


# ---------------------------------------------------------------- booleans

def isb(v):
    return isinstance(v, (bool, z3.BoolRef))


def bnot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def band(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def bimp(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    return a == b


def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    return z3.If(c, bz(a), bz(b))


# ---------------------------------------------------------------- sequences

class Fold:
    """Homomorphic fold of a sequence: f maps an element to a z3 term."""

    def __init__(self, name, sort, unit, op, f):
        self.name, self.sort, self.unit, self.op, self.f = \
            name, sort, unit, op, f


class Seq:
    """Immutable sequence. n: python int or z3 Int."""
    kind = None

    def fold(self, eng, fd):
        raise NotImplementedError

    def folds_with(self, eng, fd, k):
        raise Unsupported('prefix fold of derived sequence')


class CSeq(Seq):
    def __init__(self, items):
        self.items = tuple(items)
        self.n = len(self.items)

    def get(self, i):
        if isinstance(i, Num):
            i = i.e
        if isinstance(i, int):
            return self.items[i]
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return self.items[i.as_long()]
        if not self.items:
            return Opaque('element of empty sequence')
        r = self.items[-1]
        for j in range(self.n - 2, -1, -1):
            r = vite(i == j, self.items[j], r)
        return r

    def fold(self, eng, fd):
        r = fd.unit
        for it in self.items:
            r = fd.op(r, fd.f(it))
        return r

    def prefix(self, eng, fd, k):
        if isinstance(k, int):
            return CSeq(self.items[:k]).fold(eng, fd)
        raise Unsupported('symbolic prefix of concrete sequence')

    def unfold(self, eng, fd, k):
        return True


class FSeq(Seq):
    """n and an index function; folds through prefix functions or structure."""
    fold_total = None

    def __init__(self, n, getf, foldf=None, name='q'):
        self.n = n
        self.getf = getf
        self.foldf = foldf
        self.name = '%s!%d' % (name, next(_ids))
        self._P = {}

    def get(self, i):
        if isinstance(i, Num):
            i = i.e
        if isinstance(i, int):
            i = z3.IntVal(i)
        return self.getf(i)

    def _pf(self, eng, fd):
        if fd.name not in self._P:
            P = z3.Function('P!%s!%s' % (fd.name, self.name), z3.IntSort(),
                            fd.sort)
            self._P[fd.name] = P
            eng.axiom(P(0) == fd.unit)
            r = None
            if self.foldf is not None:
                r = self.foldf(eng, fd)
            elif self.fold_total is not None:
                r = self.fold_total(eng, fd)
            if r is not None:
                eng.axiom(P(zi(self.n)) == r)
        return self._P[fd.name]

    def fold(self, eng, fd):
        if self.foldf is not None:
            r = self.foldf(eng, fd)
            if r is not None:
                return r
        n = self.n
        return self._pf(eng, fd)(n if not isinstance(n, int)
                                 else z3.IntVal(n))

    def prefix(self, eng, fd, k):
        return self._pf(eng, fd)(k)

    def unfold(self, eng, fd, k):
        P = self._pf(eng, fd)
        return P(k + 1) == fd.op(P(k), fd.f(self.get(k)))


def seq_append(s, v):
    if isinstance(s, CSeq):
        return CSeq(s.items + (v,))
    n = s.n

    def get(i):
        return vite(i == n, v, s.get(i))

    def foldf(eng, fd):
        return fd.op(s.fold(eng, fd), fd.f(v))
    return FSeq(n + 1, get, foldf, 'app')


def seq_concat(a, b):
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        return CSeq(a.items + b.items)
    if isinstance(a, CSeq) and a.n == 0:
        return b
    if isinstance(b, CSeq) and b.n == 0:
        return a
    an, bn = a.n, b.n

    def get(i):
        if isinstance(an, int) and isinstance(i, int):
            if i < an:
                return a.get(i)
        if isinstance(an, int) and an == 0:
            return b.get(i)
        return vite(i < an, a.get(i), b.get(i - an))

    def foldf(eng, fd):
        return fd.op(a.fold(eng, fd), b.fold(eng, fd))
    return FSeq(z3.simplify(zi(an) + zi(bn)), get, foldf, 'cat')


def seq_slice(s, lo, hi, step=1):
    """lo/hi/step concrete or z3 ints, already normalised (0<=lo<=hi<=n)."""
    if isinstance(s, CSeq) and isinstance(lo, int) and isinstance(hi, int):
        return CSeq(s.items[lo:hi:step])
    lo_, hi_ = zi(lo), zi(hi)
    if step == 1:
        n = z3.simplify(z3.If(hi_ > lo_, hi_ - lo_, 0))
    else:
        n = z3.simplify(z3.If(hi_ > lo_, (hi_ - lo_ + (step - 1)) / step, 0))
    return FSeq(n, lambda i: s.get(z3.simplify(lo_ + i * step)), None, 'sl')


def zi(x):
    if isinstance(x, Num):
        x = x.e
    return z3.IntVal(x) if isinstance(x, int) else x


class SeqV:
    """A symbolic-length immutable tuple / iterator value."""
    __slots__ = ('seq', 'kind')

    def __init__(self, seq, kind='tuple'):
        self.seq = seq
        self.kind = kind


# ---------------------------------------------------------------- numbers

EXACT = {'int', 'mpz', 'mpq', 'bool'}


def lift(v):
    """numeric value -> Num or X"""
    if isinstance(v, bool):
        return Num('bool', z3.IntVal(1 if v else 0))
    if isinstance(v, int):
        return Num('int', z3.IntVal(v))
    if isinstance(v, float):
        if math.isnan(v):
            return X(z3.RealVal(0), nan=True, kind='float')
        if math.isinf(v):
            return X(z3.RealVal(0), neg=v < 0, pos=v > 0, kind='float')
        from fractions import Fraction
        f = Fraction(v)
        return Num('float', z3.RealVal('%d/%d' % (f.numerator,
                                                  f.denominator)))
    if isinstance(v, (Num, X)):
        return v
    if isinstance(v, z3.BoolRef):
        return Num('bool', z3.If(v, z3.IntVal(1), z3.IntVal(0)))
    return None


def isnum(v):
    return isinstance(v, (int, float, Num, X))


def real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def toreal(v):
    """z3 Real of a finite number"""
    v = lift(v)
    if isinstance(v, X):
        return v.v
    return real(v.e)


def toX(v):
    v = lift(v)
    if isinstance(v, X):
        return v
    return X(real(v.e), kind=v.kind)


def rk(a, b, op):
    ks = {a, b}
    if not (isinstance(a, str) and isinstance(b, str)):
        return 'any'
    if 'float' in ks:
        return 'float'
    if 'any' in ks:
        return 'any'
    if 'mpq' in ks:
        return 'mpq'
    if 'ex' in ks:
        return 'ex' if op != '/' else 'any'
    if op == '/':
        return 'float'
    if 'mpz' in ks:
        return 'mpz'
    return 'int'


def cmp_lt(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, X) or isinstance(b, X):
        a, b = toX(a), toX(b)
        return band(bnot(a.nan), bnot(b.nan),
                    bor(band(a.neg, bnot(b.neg)),
                        band(b.pos, bnot(a.pos)),
                        band(bnot(a.neg), bnot(a.pos), bnot(b.neg),
                             bnot(b.pos), a.v < b.v)))
    return _lt(a.e, b.e)


def _co(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return real(a), real(b)


def _lt(a, b):
    a, b = _co(a, b)
    r = z3.simplify(a < b)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return a < b


def cmp_eq(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, X) or isinstance(b, X):
        a, b = toX(a), toX(b)
        return band(bnot(a.nan), bnot(b.nan),
                    bor(band(a.neg, b.neg), band(a.pos, b.pos),
                        band(bnot(a.neg), bnot(a.pos), bnot(b.neg),
                             bnot(b.pos), a.v == b.v)))
    x, y = _co(a.e, b.e)
    r = z3.simplify(x == y)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return x == y


def cmp_le(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, X) or isinstance(b, X):
        return bor(cmp_lt(a, b), cmp_eq(a, b))
    x, y = _co(a.e, b.e)
    r = z3.simplify(x <= y)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return x <= y


ROUND = True
"""rounding of floating-point results modelled (as an unknown function of the
exact result); a contract module that sets FLOATS_EXACT switches it off and
lists the assumption"""

FL = z3.Function('fl', z3.RealSort(), z3.RealSort())


def rnd(kind, e):
    """the value of an arithmetic result of that kind"""
    if not ROUND or not (isinstance(kind, str) and kind == 'float'):
        return e
    e = real(e)
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        q = s.as_fraction()
        if q.numerator and abs(q) < 2 ** 1000:
            from fractions import Fraction
            f = Fraction(float(q))
            return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        return s
    if s.decl().name() == 'fl':
        return s
    return FL(s)


def _x_add(a, b, sgn):
    a, b = toX(a), toX(b)
    if sgn < 0:
        b = X(-b.v, b.pos, b.neg, b.nan, b.kind)
    nan = bor(a.nan, b.nan, band(a.neg, b.pos), band(a.pos, b.neg))
    neg = band(bnot(nan), bor(a.neg, b.neg))
    pos = band(bnot(nan), bor(a.pos, b.pos))
    return X(a.v + b.v, neg, pos, nan)


def num_add(a, b, sgn=1):
    a, b = lift(a), lift(b)
    if isinstance(a, X) or isinstance(b, X):
        return _x_add(a, b, sgn)
    x, y = _co(a.e, b.e)
    k = rk(a.kind, b.kind, '+')
    return Num(k, rnd(k, z3.simplify(x + y if sgn > 0 else x - y)))


def num_neg(a):
    a = lift(a)
    if isinstance(a, X):
        return X(-a.v, a.pos, a.neg, a.nan, a.kind)
    return Num(a.kind if a.kind != 'bool' else 'int', -a.e)


def num_mul(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, X) or isinstance(b, X):
        a, b = toX(a), toX(b)
        if all(f is False for f in (a.neg, a.pos, b.neg, b.pos)):
            return X(a.v * b.v, nan=bor(a.nan, b.nan))
        raise Unsupported('multiplying infinities')
    x, y = _co(a.e, b.e)
    k = rk(a.kind, b.kind, '*')
    return Num(k, rnd(k, z3.simplify(x * y)))


def num_div(a, b):
    """b known non-zero"""
    a, b = lift(a), lift(b)
    if isinstance(a, X) or isinstance(b, X):
        a, b = toX(a), toX(b)
        if all(f is False for f in (b.neg, b.pos)):
            if a.neg is False and a.pos is False:
                return X(a.v / b.v, nan=bor(a.nan, b.nan))
            if z3.is_rational_value(z3.simplify(b.v)) and \
                    z3.simplify(b.v).as_fraction() > 0:
                return X(a.v / b.v, a.neg, a.pos, a.nan)
        raise Unsupported('dividing infinities')
    k = rk(a.kind, b.kind, '/')
    return Num(k, rnd(k, real(a.e) / real(b.e)))


def num_ite(c, a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, X) or isinstance(b, X):
        a, b = toX(a), toX(b)
        return X(z3.If(c, a.v, b.v), bite(c, a.neg, b.neg),
                 bite(c, a.pos, b.pos), bite(c, a.nan, b.nan),
                 kind_ite(c, a.kind, b.kind) or 'mpq')
    x, y = _co(a.e, b.e)
    k = kind_ite(c, a.kind, b.kind) or rk(a.kind, b.kind, '+')
    return Num(k, z3.If(c, x, y))


def num_abs(a):
    a = lift(a)
    if isinstance(a, X):
        return X(z3.If(a.v >= 0, a.v, -a.v), False, bor(a.neg, a.pos), a.nan,
                 a.kind)
    return Num(a.kind if a.kind != 'bool' else 'int',
               z3.If(a.e >= 0, a.e, -a.e))


def vite(c, a, b):
    """if-then-else on values"""
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (str, type(None))) and a == b and type(a) == type(b):
        return a
    if isb(a) and isb(b):
        return bite(c, a, b)
    if isnum(a) and isnum(b):
        return num_ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (tuple, SeqV)) and isinstance(b, (tuple, SeqV)):
        sa = CSeq(a) if isinstance(a, tuple) else a.seq
        sb = CSeq(b) if isinstance(b, tuple) else b.seq
        ka = 'tuple' if isinstance(a, tuple) else a.kind
        kb = 'tuple' if isinstance(b, tuple) else b.kind
        if isinstance(sa, CSeq) and isinstance(sb, CSeq) and sa.n == sb.n:
            return SeqV(CSeq([vite(c, x, y) for x, y in
                              zip(sa.items, sb.items)]),
                        ka if ka == kb else 'seq')
        if sa is sb and ka == kb:
            return a
    if hasattr(a, 'h_ite'):
        return a.h_ite(c, b)
    if hasattr(b, 'h_ite'):
        return b.h_ite(z3.Not(c), a)
    if isinstance(a, Sym) and isinstance(b, Sym) and a.sc is b.sc:
        return Sym(a.sc, z3.If(c, a.e, b.e))
    if isinstance(a, Opaque):
        return b
    if isinstance(b, Opaque):
        return a
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return a
    raise Unsupported('if-then-else of %r and %r' % (a, b))


def vsubst(v, pairs):
    """substitute z3 constants in a value"""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Num):
        return Num(kind_subst(v.kind, pairs), z3.substitute(v.e, *pairs))
    if isinstance(v, X):
        def s(f):
            return f if isinstance(f, bool) else z3.substitute(f, *pairs)
        return X(z3.substitute(v.v, *pairs), s(v.neg), s(v.pos), s(v.nan),
                 kind_subst(v.kind, pairs))
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, Sym):
        return Sym(v.sc, z3.substitute(v.e, *pairs))
    if isinstance(v, (int, float, str, type(None), Opaque, Cls, Ext,
                      UserClass, UserFunc)):
        return v
    if isinstance(v, SeqV):
        return SeqV(seq_subst(v.seq, pairs), v.kind)
    if hasattr(v, 'h_subst'):
        return v.h_subst(pairs)
    raise Unsupported('substitution in %r' % (v,))


def seq_subst(s, pairs):
    if isinstance(s, CSeq):
        return CSeq([vsubst(x, pairs) for x in s.items])
    n = s.n if isinstance(s.n, int) else z3.substitute(s.n, *pairs)
    return FSeq(n, lambda i: vsubst(s.get(i), pairs), None, 'sub')


def occurs(c, e):
    """the constant c occurs in e"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return False
