"""Contracts of Python built-ins and of the library functions /repo uses.

These are the trusted models of everything below /repo's own source: built-in
containers and numbers, gmpy2 rationals (exact), the small part of numpy that
is used on exact (object) arrays, itertools, operator, pyrsistent records.
"""
import ast
import itertools
import math
import z3
from .val import *
from .val import _ids

# ------------------------------------------------------------------ names

_BUILTIN_FUNCS = {
    'len', 'range', 'sorted', 'zip', 'enumerate', 'sum', 'min', 'max', 'abs',
    'any', 'all', 'isinstance', 'print', 'reversed', 'iter', 'next',
    'hasattr', 'getattr', 'type', 'map', 'filter', 'round', 'repr', 'locals',
    'super', 'id', 'vars', 'divmod', 'pow', 'issubclass', 'callable', 'hash'}
_BUILTIN_CLS = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set',
                'frozenset', 'object', 'slice', 'bytes', 'complex'}
_EXC = {'Exception', 'ValueError', 'KeyError', 'IndexError', 'TypeError',
        'AssertionError', 'ZeroDivisionError', 'RuntimeError',
        'NotImplementedError', 'AttributeError', 'StopIteration',
        'OverflowError', 'LookupError', 'ArithmeticError', 'BaseException',
        'KeyboardInterrupt', 'SystemExit', 'NameError', 'OSError',
        'FileNotFoundError'}

_EXTMAP = {
    'gmpy2.mpq': Cls('mpq'),
    'gmpy2.mpz': Cls('mpz'),
    'fractions.Fraction': Cls('Fraction'),
    'math.inf': math.inf,
    'math.nan': math.nan,
    'numpy.inf': math.inf,
    'numpy.nan': math.nan,
}


def ext(name, self_=None):
    if name in _EXTMAP:
        return _EXTMAP[name]
    return Ext(name, self_)


def builtin(name):
    if name in _BUILTIN_CLS:
        return (Cls(name),)
    if name in _BUILTIN_FUNCS:
        return (Ext('builtins.' + name),)
    if name in _EXC:
        return (Ext('exc.' + name),)
    return None


def special_global(eng, mod, name, expr):
    """module globals whose defining expression is about classes"""
    txt = ast.unparse(expr).replace(' ', '')
    if txt.endswith('.__class__') and 'mpq' in txt:
        return Cls('mpq')
    if txt.endswith('.__class__') and 'mpz' in txt:
        return Cls('mpz')
    if 'getLogger' in txt:
        return Ext('logging.logger')
    if txt.startswith('pyr.field') or txt.startswith('pyrsistent.field'):
        return Opaque('field')
    return None


_LOGMETH = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'log',
            'critical'}


def is_log_call(n):
    f = n.func
    if isinstance(f, ast.Name) and f.id == 'print':
        return True
    return (isinstance(f, ast.Attribute) and f.attr in _LOGMETH and
            isinstance(f.value, ast.Name) and 'log' in f.value.id.lower())


# ------------------------------------------------------------------ values

class HV:
    """A value whose behaviour is given by a contract module."""

    def h_attr(self, eng, st, name):
        raise Unsupported('attribute %s of %r' % (name, self))
        yield

    def h_item(self, eng, st, i):
        raise Unsupported('item of %r' % (self,))
        yield

    def h_bin(self, eng, st, op, other, rev):
        raise Unsupported('operator %s on %r' % (op, self))
        yield

    def h_truth(self, eng, st):
        raise Unsupported('truth of %r' % (self,))

    def h_seq(self, eng, st):
        return None

    def h_cmp(self, eng, st, op, other, rev):
        raise Unsupported('comparison %s on %r' % (op, self))
        yield

    def h_contains(self, eng, st, v):
        raise Unsupported('containment in %r' % (self,))
        yield

    def h_set(self, eng, st, i, v):
        """new value after item assignment (None: unsupported)"""
        return None

    def h_call(self, eng, st, args, kw):
        raise Unsupported('call of %r' % (self,))
        yield


class ExcV(HV):
    """a caught exception as a value"""

    def __init__(self, exc):
        self.exc = exc

    def h_truth(self, eng, st):
        return True

    def h_isnone(self):
        return False


class SetV(HV):
    """set of concrete hashables and/or symbolic elements given as a list of
    members (each possibly guarded)"""

    def __init__(self, items):
        self.items = tuple(items)


def classname(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if v is None:
        return 'NoneType'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, (Num, X)):
        return v.kind
    if isinstance(v, SeqV):
        return {'iter': 'iterator', 'arr': 'ndarray'}.get(v.kind, v.kind)
    return None


def class_of(eng, st, v):
    n = classname(v)
    if isinstance(n, KX):
        return SymCls(n.test)
    if n is not None:
        return Cls(n) if isinstance(n, str) else n
    if isinstance(v, Ref):
        rec = st.heap[v.id]
        t = type(rec).__name__
        if t == 'ListRec':
            return Cls({'arr': 'ndarray'}.get(rec.kind, rec.kind))
        if t == 'DictRec':
            return Cls('dict')
        if t == 'ObjRec':
            return rec.cls
        if t == 'AbsRec':
            return Cls(rec.typ)
    if isinstance(v, Sym) and v.sc.cls is not None:
        return v.sc.cls
    if isinstance(v, HV) and hasattr(v, 'h_class'):
        return v.h_class(eng)
    if isinstance(v, OtherV):
        return Cls('other')
    raise Unsupported('class of %r' % (v,))


class OtherV(HV):
    """A value of some class the code does not name."""

    def h_attr(self, eng, st, name):
        if name == '__class__':
            yield st, Cls('other')
        else:
            yield st, Exc('AttributeError', name)


def same_class(a, b):
    """Bool/bool for class equality"""
    if isinstance(a, Cls) and isinstance(b, Cls):
        if a.name == b.name:
            return True
        return False
    if isinstance(a, SymCls) or isinstance(b, SymCls):
        if isinstance(b, SymCls):
            a, b = b, a
        if isinstance(b, Cls):
            return a.tests(b.name)
        return False
    if isinstance(a, UserClass) and isinstance(b, UserClass):
        return a.key == b.key
    return False


class SymCls:
    """Unknown class: tests maps class name -> Bool"""

    def __init__(self, tests):
        self.tests = tests


# ------------------------------------------------------------------ sequences

def as_seq(eng, st, v, iterate=False):
    if isinstance(v, tuple):
        return CSeq(v)
    if isinstance(v, SeqV):
        return v.seq
    if isinstance(v, str):
        return CSeq(v)
    if isinstance(v, HV):
        return v.h_seq(eng, st)
    if isinstance(v, Sym) and 'seq' in v.sc.attrs:
        return v.sc.attrs['seq'](eng, st, v)
    if isinstance(v, Ref):
        rec = st.heap[v.id]
        t = type(rec).__name__
        if t == 'ListRec':
            return rec.seq
        if t == 'DictRec':
            return CSeq(rec.d.keys())
        if t == 'AbsRec' and hasattr(rec.data, 'h_seq'):
            return rec.data.h_seq(eng, st)
    return None


def need_seq(eng, st, v):
    s = as_seq(eng, st, v)
    if s is None:
        raise Unsupported('not a sequence: %r' % (v,))
    return s


def freeze(st, v):
    """deep immutable snapshot of lists (their later mutation is refused)"""
    if isinstance(v, Ref):
        rec = st.heap[v.id]
        if type(rec).__name__ == 'ListRec':
            fz = SeqV(CSeq([freeze(st, x) for x in rec.seq.items])
                      if isinstance(rec.seq, CSeq) else rec.seq, rec.kind)
            st.ghost['frozen'] = st.ghost.get('frozen', frozenset()) | {v.id}
            return fz
        return v
    if isinstance(v, tuple):
        return tuple(freeze(st, x) for x in v)
    return v


def mutable(st, r):
    if r.id in st.ghost.get('frozen', ()):
        raise Unsupported('mutation of a list already stored elsewhere')


def is_arr(st, v):
    if isinstance(v, SeqV):
        return v.kind == 'arr'
    if isinstance(v, Ref):
        rec = st.heap[v.id]
        return type(rec).__name__ == 'ListRec' and rec.kind == 'arr'
    return False


def islistlike(st, v):
    if isinstance(v, (tuple,)):
        return True
    if isinstance(v, SeqV):
        return True
    if isinstance(v, Ref):
        return type(st.heap[v.id]).__name__ == 'ListRec'
    return False


def arr_items(eng, st, v):
    """items of an array-like of known length (nested -> nested tuples)"""
    s = as_seq(eng, st, v)
    if s is None:
        return None
    return s


def norm_index(i, n):
    """python index -> non-negative z3/py int and in-range condition"""
    if isinstance(i, Num):
        i = z3.simplify(i.e)
        if z3.is_int_value(i):
            i = i.as_long()
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        return i, 0 <= i < n
    if isinstance(i, int):
        if i >= 0:
            return i, zi(n) > i
        return z3.simplify(zi(n) + i), zi(n) >= -i
    ii = z3.simplify(z3.If(i < 0, i + zi(n), i))
    return ii, z3.And(ii >= 0, ii < zi(n))


def getitem(eng, st, o, i):
    if isinstance(o, HV):
        yield from o.h_item(eng, st, i)
        return
    if isinstance(o, Ref) and type(st.heap[o.id]).__name__ == 'DictRec':
        yield from dict_get(eng, st, o, i)
        return
    if isinstance(o, Ref) and type(st.heap[o.id]).__name__ == 'AbsRec':
        d = st.heap[o.id].data
        if hasattr(d, 'h_itemref'):
            yield from d.h_itemref(eng, st, o, i)
        else:
            yield from d.h_item(eng, st, i)
        return
    if isinstance(o, Ref) and type(st.heap[o.id]).__name__ == 'ObjRec':
        # PRecord item access
        rec = st.heap[o.id]
        if isinstance(i, str) and i in rec.fields:
            yield st, rec.fields[i]
        else:
            yield st, Exc('KeyError', str(i))
        return
    if isinstance(o, Sym) and 'getitem' in o.sc.methods:
        yield from o.sc.methods['getitem'](eng, st, o, [i], {})
        return
    if isinstance(o, Opaque):
        raise Unsupported('item of %r' % o)
    s = as_seq(eng, st, o)
    if s is None:
        raise Unsupported('item of %r' % (o,))
    arr = is_arr(st, o)
    if isinstance(i, slice):
        yield st, do_slice(eng, st, o, s, i, arr)
        return
    if isinstance(i, tuple) and arr:
        # multi-dimensional index
        if len(i) == 1:
            yield from getitem(eng, st, o, i[0])
            return
        if isinstance(i[0], slice):
            sub = do_slice(eng, st, o, s, i[0], True)
            ss = as_seq(eng, st, sub)
            if not isinstance(ss, CSeq):
                raise Unsupported('array slice')
            out = []
            for row in ss.items:
                rs = list(getitem(eng, st, row, i[1] if len(i) == 2
                                  else i[1:]))
                if len(rs) != 1 or isinstance(rs[0][1], Exc):
                    raise Unsupported('array slice')
                out.append(rs[0][1])
            yield st, SeqV(CSeq(out), 'arr')
            return
        for s1, row in getitem(eng, st, o, i[0]):
            if isinstance(row, Exc):
                yield s1, row
            else:
                yield from getitem(eng, s1, row,
                                   i[1] if len(i) == 2 else i[1:])
        return
    if arr and (is_arr(st, i) or isinstance(i, Ref)):
        ix = as_seq(eng, st, i)
        if isinstance(ix, CSeq) and isinstance(s, CSeq):
            out = []
            if ix.n and isinstance(ix.items[0], bool):
                out = [v for v, b in zip(s.items, ix.items) if b]
            else:
                out = [s.get(j) for j in ix.items]
            yield st, SeqV(CSeq(out), 'arr')
            return
        raise Unsupported('fancy index')
    if not (isinstance(i, (int, bool)) or
            (isinstance(i, Num) and z3.is_int(i.e))):
        if isinstance(i, (str, type(None), float, X, tuple, Num)):
            yield st, Exc('TypeError', 'index %r' % (i,))
            return
        raise Unsupported('index %r' % (i,))
    k, ok = norm_index(i, s.n)
    for s1, b in eng.split(st, ok):
        if b:
            yield s1, s.get(k)
        else:
            yield s1, Exc('IndexError', '')


def do_slice(eng, st, o, s, sl, arr):
    lo, hi, step = sl.start, sl.stop, sl.step

    def cv(x):
        if x is None:
            return None
        if isinstance(x, Num):
            e = z3.simplify(x.e)
            if z3.is_int_value(e):
                return e.as_long()
            return e
        return x
    lo, hi, step = cv(lo), cv(hi), cv(step)
    kind = 'arr' if arr else (
        'tuple' if isinstance(o, tuple) else
        o.kind if isinstance(o, SeqV) else st.heap[o.id].kind)
    if isinstance(s, CSeq) and all(x is None or isinstance(x, int)
                                   for x in (lo, hi, step)):
        items = s.items[lo:hi:step]
        if kind == 'tuple':
            return tuple(items)
        if kind == 'list':
            return eng_alloc(st, CSeq(items), 'list')
        return SeqV(CSeq(items), kind)
    n = s.n

    def clampz(x, default):
        if x is None:
            return default
        if isinstance(x, int):
            if x >= 0:
                if isinstance(n, int):
                    return min(x, n)
                return z3.simplify(z3.If(zi(n) < x, zi(n), zi(x)))
            y = zi(n) + x
            return z3.simplify(z3.If(y < 0, 0, y))
        y = z3.If(x < 0, x + zi(n), x)
        return z3.simplify(z3.If(y < 0, 0, z3.If(y > zi(n), zi(n), y)))
    if step in (None, 1) or (isinstance(step, int) and step > 0):
        q = seq_slice(s, clampz(lo, 0), clampz(hi, n), step or 1)
    elif step == -1 and lo is None and hi is None:
        q = seq_reverse(s)
    else:
        raise Unsupported('slice step')
    if kind == 'list':
        return eng_alloc(st, q, 'list')
    return SeqV(q, kind)


def eng_alloc(st, seq, kind='list'):
    from .eng import ListRec
    return st.alloc(ListRec(seq, kind))


def seq_reverse(s):
    if isinstance(s, CSeq):
        return CSeq(s.items[::-1])
    n = s.n

    def foldf(eng, fd):
        if getattr(fd, 'commutative', True):
            return s.fold(eng, fd)
        return None
    return FSeq(n, lambda i: s.get(z3.simplify(zi(n) - 1 - i)), foldf, 'rev')


def setitem(eng, st, o, i, v):
    """yields (st, Exc|None) or (st, ('new', value)) for immutable arrays"""
    from .eng import ListRec, DictRec, AbsRec
    if isinstance(o, HV):
        r = o.h_set(eng, st, i, v)
        if r is None:
            raise Unsupported('item assignment on %r' % (o,))
        yield from r
        return
    if isinstance(o, Ref):
        rec = st.heap[o.id]
        if isinstance(rec, DictRec):
            yield from dict_set(eng, st, o, i, v)
            return
        if isinstance(rec, AbsRec):
            yield from rec.data.h_setref(eng, st, o, i, v)
            return
        if isinstance(rec, ListRec):
            mutable(st, o)
            s = rec.seq
            if isinstance(i, slice):
                if i.step is not None:
                    raise Unsupported('extended slice assignment')
                new = need_seq(eng, st, v)
                if not isinstance(s, CSeq) or not all(
                        x is None or isinstance(x, int)
                        for x in (i.start, i.stop)):
                    raise Unsupported('slice assignment')
                if not isinstance(new, CSeq):
                    raise Unsupported('slice assignment')
                l = list(s.items)
                l[i.start:i.stop] = list(new.items)
                st.heap[o.id] = ListRec(CSeq(l), rec.kind)
                yield st, None
                return
            k, ok = norm_index(i, s.n)
            for s1, b in eng.split(st, ok):
                if not b:
                    yield s1, Exc('IndexError', '')
                    continue
                s1.heap[o.id] = ListRec(seq_update(s, k, v), rec.kind)
                yield s1, None
            return
    if isinstance(o, SeqV) and o.kind == 'arr':
        raise Unsupported('assignment into a computed array')
    raise Unsupported('item assignment on %r' % (o,))


def seq_update(s, k, v):
    if isinstance(s, CSeq) and isinstance(k, int):
        l = list(s.items)
        l[k] = v
        return CSeq(l)
    if isinstance(s, CSeq):
        return CSeq([vite(k == j, v, s.items[j]) for j in range(s.n)])
    return FSeq(s.n, lambda i: vite(i == k, v, s.get(i)), None, 'upd')


def delitem(eng, st, o, i):
    from .eng import ListRec, DictRec, AbsRec
    out = []
    if isinstance(o, Ref):
        rec = st.heap[o.id]
        if isinstance(rec, DictRec):
            k = key_of(i)
            if k in rec.d:
                d = dict(rec.d)
                del d[k]
                st.heap[o.id] = DictRec(d, rec.default)
                return [(st, None)]
            return [(st, Exc('KeyError', str(i)))]
        if isinstance(rec, AbsRec):
            return list(rec.data.h_delref(eng, st, o, i))
        if isinstance(rec, ListRec) and isinstance(rec.seq, CSeq) and \
                isinstance(i, int):
            mutable(st, o)
            l = list(rec.seq.items)
            if -len(l) <= i < len(l):
                del l[i]
                st.heap[o.id] = ListRec(CSeq(l), rec.kind)
                return [(st, None)]
            return [(st, Exc('IndexError', ''))]
    raise Unsupported('del item')


# ------------------------------------------------------------------ dicts

def key_of(k):
    if isinstance(k, Num):
        e = z3.simplify(k.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported('symbolic key')
    if isinstance(k, (int, str, bool, type(None), float)):
        return k
    if isinstance(k, tuple):
        return tuple(key_of(x) for x in k)
    raise Unsupported('key %r' % (k,))


def dict_get(eng, st, o, i):
    rec = st.heap[o.id]
    k = key_of(i)
    if k in rec.d:
        yield st, rec.d[k]
    elif rec.default is not None:
        for s, v in eng.call(rec.default, st, []):
            if not isinstance(v, Exc):
                yield from ((s1, v) for s1, e in dict_set(eng, s, o, i, v))
            else:
                yield s, v
    else:
        yield st, Exc('KeyError', str(k))


def dict_set(eng, st, o, i, v):
    from .eng import DictRec
    rec = st.heap[o.id]
    k = key_of(i)
    d = dict(rec.d)
    d[k] = v
    st.heap[o.id] = DictRec(d, rec.default)
    yield st, None


def make_dict(eng, n, st):
    from .eng import DictRec
    if not n.keys and 'dict_new' in eng.attr_hooks:
        yield from eng.attr_hooks['dict_new'](eng, st)
        return
    def go(idx, s, d):
        if idx == len(n.keys):
            yield s, s.alloc(DictRec(d))
            return
        kn, vn = n.keys[idx], n.values[idx]
        if kn is None:
            for s1, v in eng.ev(vn, s):
                if isinstance(v, Exc):
                    yield s1, v
                    continue
                if isinstance(v, Ref) and isinstance(s1.heap[v.id], DictRec):
                    d2 = dict(d)
                    d2.update(s1.heap[v.id].d)
                    yield from go(idx + 1, s1, d2)
                elif len(n.keys) == 1 and hasattr(v, 'h_copy'):
                    yield s1, v.h_copy(eng, s1)
                elif len(n.keys) == 1 and isinstance(v, Ref) and \
                        hasattr(s1.heap[v.id], 'data'):
                    from .eng import AbsRec
                    yield s1, s1.alloc(AbsRec(s1.heap[v.id].typ,
                                              s1.heap[v.id].data))
                else:
                    raise Unsupported('** of %r' % (v,))
            return
        for s1, vs in eng.evs([kn, vn], s):
            if isinstance(vs, Exc):
                yield s1, vs
                continue
            try:
                k = key_of(vs[0])
            except Unsupported:
                mk = eng.attr_hooks.get('dict_literal')
                if mk is None:
                    raise
                yield from mk(eng, n, st)
                return
            d2 = dict(d)
            d2[k] = vs[1]
            yield from go(idx + 1, s1, d2)
    yield from go(0, st, {})


def kw_splat(eng, st, v):
    if isinstance(v, Ref) and type(st.heap[v.id]).__name__ == 'DictRec':
        return dict(st.heap[v.id].d)
    return v


def make_set(eng, st, vs):
    mk = eng.attr_hooks.get('make_set')
    if mk is None:
        raise Unsupported('set')
    yield from mk(eng, st, vs)


# ------------------------------------------------------------------ operators

_OPN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
        'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Mod': 'mod',
        'FloorDiv': 'floordiv', 'Pow': 'pow', 'MatMult': 'matmul'}


def numpyish(v):
    return isinstance(v, (Num, X, int, float, bool, z3.BoolRef))


def binop(eng, st, op, a, b, inplace=False):
    if isinstance(a, Exc) or isinstance(b, Exc):
        raise Unsupported('exception value in expression')
    # abstract values
    if isinstance(a, Sym) and _OPN[op] in a.sc.ops:
        yield from a.sc.ops[_OPN[op]](eng, st, a, [b], {})
        return
    if isinstance(a, HV):
        yield from a.h_bin(eng, st, op, b, False)
        return
    if isinstance(b, HV):
        yield from b.h_bin(eng, st, op, a, True)
        return
    # user objects
    if isinstance(a, Sym) and a.sc.cls is not None:
        f = eng.class_attr(a.sc.cls, '__%s__' % _OPN[op], st)
        if f is not None:
            yield from eng.call(Bound(f, a), st, [b])
            return
    if isinstance(a, Ref):
        rec = st.heap[a.id]
        if type(rec).__name__ == 'ObjRec' and isinstance(rec.cls, UserClass):
            if inplace:
                f = eng.class_attr(rec.cls, '__i%s__' % _OPN[op], st)
                if f is not None:
                    yield from eng.call(Bound(f, a), st, [b])
                    return
            f = eng.class_attr(rec.cls, '__%s__' % _OPN[op], st)
            if f is None:
                yield st, Exc('TypeError', 'operator %s' % op)
                return
            yield from eng.call(Bound(f, a), st, [b])
            return
        if type(rec).__name__ == 'AbsRec':
            yield from rec.data.h_binref(eng, st, a, op, b, inplace)
            return
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if op in ('Add', 'Mod') :
            yield st, Opaque('text')
            return
        raise Unsupported('operator on opaque')
    # arrays
    if is_arr(st, a) or is_arr(st, b):
        yield from arr_binop(eng, st, op, a, b, inplace)
        return
    # sequences
    if op == 'Add' and islistlike(st, a) and islistlike(st, b):
        yield st, seq_add(eng, st, a, b, inplace)
        return
    if op == 'Mult' and (islistlike(st, a) or islistlike(st, b)):
        if islistlike(st, b):
            a, b = b, a
        s = need_seq(eng, st, a)
        if isinstance(s, CSeq) and isinstance(b, int):
            items = list(s.items) * b
            yield st, (tuple(items) if isinstance(a, tuple)
                       else eng_alloc(st, CSeq(items)))
            return
        if isinstance(s, CSeq) and s.n == 1 and isinstance(b, Num):
            it = s.items[0]
            n = z3.simplify(z3.If(b.e < 0, 0, b.e))
            yield st, eng_alloc(st, FSeq(n, lambda i: it, None, 'rep'))
            return
        raise Unsupported('sequence repetition')
    if isinstance(a, str) and isinstance(b, str) and op == 'Add':
        yield st, a + b
        return
    if isinstance(a, str) and op == 'Mod':
        hook = eng.attr_hooks.get('strmod')
        if hook is not None:
            yield st, hook(eng, st, a, b)
            return
        yield st, Opaque('text')
        return
    if isb(a) and isb(b) and op in ('BitAnd', 'BitOr', 'BitXor'):
        f = {'BitAnd': band, 'BitOr': bor,
             'BitXor': lambda x, y: bnot(biff(x, y))}[op]
        yield st, f(a, b)
        return
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        yield st, Exc('TypeError', 'operator %s on %r, %r' % (op, a, b))
        return
    yield from num_binop(eng, st, op, a, b, la, lb)


def pyint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def num_binop(eng, st, op, a, b, la, lb):
    if isinstance(la, Num) and not isinstance(la.kind, str) or \
            isinstance(lb, Num) and not isinstance(lb.kind, str):
        raise Unsupported('arithmetic on value of unknown class')
    if pyint(a) and pyint(b) and op in ('Add', 'Sub', 'Mult'):
        yield st, {'Add': a + b, 'Sub': a - b, 'Mult': a * b}[op]
        return
    if op == 'Add':
        yield st, num_add(la, lb)
    elif op == 'Sub':
        yield st, num_add(la, lb, -1)
    elif op == 'Mult':
        if isinstance(la, X) or isinstance(lb, X):
            yield from x_mul(eng, st, la, lb)
        else:
            yield st, num_mul(la, lb)
    elif op == 'Div':
        if isinstance(lb, X):
            if not (lb.neg is False and lb.pos is False):
                raise Unsupported('division by infinity')
            nz = lb.v != 0
            if lb.nan is not False:
                nz = bor(lb.nan, nz)
        else:
            nz = bnot(cmp_eq(lb, 0))
        for s, ok in eng.split(st, nz):
            if ok:
                yield s, num_div(la, lb)
            else:
                yield s, Exc('ZeroDivisionError', '')
    elif op in ('Mod', 'FloorDiv'):
        for s, ok in eng.split(st, bnot(cmp_eq(lb, 0))):
            if not ok:
                yield s, Exc('ZeroDivisionError', '')
                continue
            if pyint(a) and pyint(b):
                yield s, (a % b if op == 'Mod' else a // b)
                continue
            if isinstance(la, X) or isinstance(lb, X):
                raise Unsupported('mod of infinity')
            bv = z3.simplify(lb.e)
            k = rk(la.kind, lb.kind, '%')
            if z3.is_int(la.e) and z3.is_int(bv):
                q = eng.fresh('q', z3.IntSort())
                r = eng.fresh('r', z3.IntSort())
                s.assume(la.e == q * bv + r,
                         z3.If(bv > 0, z3.And(0 <= r, r < bv),
                               z3.And(bv < r, r <= 0)))
                yield s, Num(k, r if op == 'Mod' else q)
                continue
            # real modulus: a = b*q + r with integer q = floor(a / b)
            q = floor_of(eng, s, real(la.e) / real(bv))
            r = real(la.e) - real(bv) * z3.ToReal(q)
            s.assume(z3.If(real(bv) > 0, z3.And(0 <= r, r < real(bv)),
                           z3.And(real(bv) < r, r <= 0)))
            if op == 'Mod':
                yield s, Num(k, r)
            else:
                yield s, Num('mpz' if k == 'mpq' else k, q)
    elif op == 'Pow':
        if pyint(b) and 0 <= b <= 4:
            if pyint(a):
                yield st, a ** b
                return
            r = 1
            for _ in range(b):
                r = num_mul(r, la)
            yield st, r
        else:
            raise Unsupported('power')
    else:
        raise Unsupported('operator %s' % op)


def floor_of(eng, st, e):
    """integer part of a real term (the same constant for the same term)"""
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return z3.IntVal(f.numerator // f.denominator)
    key = (e.get_id(), tuple(i.get_id() for i in eng.ictx))
    c = eng.floors.get(key)
    if c is None:
        c = (eng.fresh('floor', z3.IntSort()), e)
        eng.floors[key] = c
    k = c[0]
    st.assume(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1)
    return k


def x_mul(eng, st, a, b):
    a, b = toX(a), toX(b)
    if all(f is False for f in (a.neg, a.pos, b.neg, b.pos)):
        yield st, X(a.v * b.v, nan=bor(a.nan, b.nan))
        return
    az = band(a.fin(), a.v == 0)
    bz_ = band(b.fin(), b.v == 0)
    ainf, binf = bor(a.neg, a.pos), bor(b.neg, b.pos)
    nan = bor(a.nan, b.nan, band(az, binf), band(bz_, ainf))
    apos = bor(a.pos, band(a.fin(), a.v > 0))
    bpos = bor(b.pos, band(b.fin(), b.v > 0))
    aneg = bor(a.neg, band(a.fin(), a.v < 0))
    bneg = bor(b.neg, band(b.fin(), b.v < 0))
    inf = band(bnot(nan), bor(ainf, binf))
    yield st, X(a.v * b.v,
                band(inf, bor(band(apos, bneg), band(aneg, bpos))),
                band(inf, bor(band(apos, bpos), band(aneg, bneg))), nan)


def arr_binop(eng, st, op, a, b, inplace=False):
    from .eng import ListRec
    sa = as_seq(eng, st, a) if not isnum(a) and not isb(a) else None
    sb = as_seq(eng, st, b) if not isnum(b) and not isb(b) else None

    def fin(s, seq):
        if inplace and isinstance(a, Ref):
            s.heap[a.id] = ListRec(seq, 'arr')
            return a
        if inplace:
            eng.notes.add('in-place operation on a computed array treated '
                          'as rebinding')
        return SeqV(seq, 'arr')
    if sa is not None and sb is not None:
        if isinstance(sa, CSeq) and isinstance(sb, CSeq):
            # broadcasting of rows
            na, nb = depth(eng, st, a), depth(eng, st, b)
            if na == nb:
                if sa.n != sb.n:
                    if sa.n == 1:
                        sa = CSeq(sa.items * sb.n)
                    elif sb.n == 1:
                        sb = CSeq(sb.items * sa.n)
                    else:
                        yield st, Exc('ValueError', 'shapes')
                        return
                pairs = list(zip(sa.items, sb.items))
            elif na > nb:
                pairs = [(x, b) for x in sa.items]
            else:
                pairs = [(a, y) for y in sb.items]
        else:
            na = elem_depth(eng, st, sa)
            nb = elem_depth(eng, st, sb)
            if na > nb:
                yield from arr_map(eng, st, sa, lambda s, x: arr_or_num(
                    eng, s, op, x, b), fin)
                return
            if na < nb:
                yield from arr_map(eng, st, sb, lambda s, x: arr_or_num(
                    eng, s, op, a, x), fin)
                return
            raise Unsupported('array operation of unknown lengths')
    elif sa is not None:
        if not isinstance(sa, CSeq):
            yield from arr_map(eng, st, sa, lambda s, x: arr_or_num(
                eng, s, op, x, b), fin)
            return
        pairs = [(x, b) for x in sa.items]
    else:
        if not isinstance(sb, CSeq):
            yield from arr_map(eng, st, sb, lambda s, x: arr_or_num(
                eng, s, op, a, x), fin)
            return
        pairs = [(a, y) for y in sb.items]
    acc = [(st, [])]
    for x, y in pairs:
        nxt = []
        for s, l in acc:
            if isinstance(l, Exc):
                nxt.append((s, l))
                continue
            for s1, r in arr_or_num(eng, s, op, x, y):
                nxt.append((s1, r if isinstance(r, Exc) else l + [r]))
        acc = nxt
    for s, l in acc:
        yield s, (l if isinstance(l, Exc) else fin(s, CSeq(l)))


def arr_or_num(eng, st, op, x, y):
    if (islistlike(st, x) or islistlike(st, y)):
        xx = SeqV(as_seq(eng, st, x), 'arr') if islistlike(st, x) else x
        yy = SeqV(as_seq(eng, st, y), 'arr') if islistlike(st, y) else y
        yield from arr_binop(eng, st, op, xx, yy)
    else:
        yield from binop(eng, st, op, x, y)


def depth(eng, st, v):
    d = 0
    while islistlike(st, v):
        s = as_seq(eng, st, v)
        d += 1
        if isinstance(s, CSeq):
            if s.n == 0:
                return d
            v = s.items[0]
        else:
            v = s.get(z3.IntVal(0))
    return d


def elem_depth(eng, st, s):
    if isinstance(s, CSeq):
        return depth(eng, st, s.items[0]) if s.n else 0
    return depth(eng, st, s.get(z3.IntVal(0)))


def arr_map(eng, st, seq, f, fin):
    """map over symbolic-length array; f must not fork or fail"""
    for s, r in seq_map(eng, st, seq, f):
        yield s, (r if isinstance(r, Exc) else fin(s, r))


def seq_map(eng, st, seq, f):
    """yields (st, Seq|Exc); f(st, elem) iterator of outcomes"""
    if isinstance(seq, CSeq):
        acc = [(st, [])]
        for x in seq.items:
            nxt = []
            for s, l in acc:
                if isinstance(l, Exc):
                    nxt.append((s, l))
                    continue
                for s1, r in f(s, x):
                    nxt.append((s1, r if isinstance(r, Exc)
                                else l + [freeze(s1, r)]))
            acc = nxt
        for s, l in acc:
            yield s, (l if isinstance(l, Exc) else CSeq(l))
        return
    # symbolic: evaluate once at a generic index i, generalise
    i = z3.Int('ix!%d' % next(_ids))
    n = zi(seq.n)
    sub = st.copy()
    base = len(sub.pc)
    sub.assume(i >= 0, i < n)
    b2 = len(sub.pc)
    eng.ictx.append(i)
    try:
        outs = list(f(sub, seq.get(i)))
    finally:
        eng.ictx.pop()
    good = [(s, v) for s, v in outs if not isinstance(v, Exc)]
    bad = [(s, v) for s, v in outs if isinstance(v, Exc)]
    for s, v in bad:
        # some element fails
        j = eng.fresh('fail', z3.IntSort())
        s2 = st.copy()
        facts = [z3.substitute(p, (i, j)) for p in s.pc[base:]]
        s2.assume(*facts)
        if eng.feasible(s2):
            yield s2, v
    if not good:
        s2 = st.copy()
        s2.assume(n == 0)
        if eng.feasible(s2):
            yield s2, CSeq(())
        return
    for s, v in good:
        for r, rec in s.heap.items():
            if r in st.heap and st.heap[r] is not rec:
                raise Unsupported('effect inside a comprehension')
    vals = []
    conds = []
    for s, v in good:
        v = freeze(s, v)
        facts = band(*s.pc[b2:]) if len(s.pc) > b2 else True
        vals.append(v)
        conds.append(facts)
    if len(vals) == 1:
        val = vals[0]
        if conds[0] is not True:
            st.assume(z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < n), conds[0])))
    else:
        # merged value
        val = vals[-1]
        for v, c in zip(vals[-2::-1], conds[-2::-1]):
            val = vite(bz(c), v, val)
        allc = bor(*conds)
        if allc is not True:
            st.assume(z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < n), allc)))
    q = FSeq(seq.n, lambda k, val=val: vsubst(val, [(i, zi(k))]), None,
             'map')
    q.map_of = seq
    q.map_ix = (i, val)
    q.fold_total = link_fold(st, seq, i, [(band(i >= 0, i < n), True, val)])
    yield st, q


def link_fold(st, src, i, cases):
    """fold of a mapped / filtered sequence in terms of its source.

    cases: (condition on index i, kept?, value).  Valid when for every index
    each kept value folds like the source element (under the fold's source
    reading) and each dropped element folds to the unit."""
    pc = st.pc

    def f(eng, fd):
        sd = getattr(fd, 'source', None)
        try:
            if all(not kept or eng.lib.solve_valid(
                    eng, pc + (bz(c),), term_eq(fd.f(val), fd.unit))
                    for c, kept, val in cases):
                return fd.unit
        except (Unsupported, AttributeError, TypeError, IndexError):
            pass
        for fs in ([fd] if sd is None else [fd] + list(sd)):
            try:
                srcv = fs.f(src.get(i))
            except (Unsupported, AttributeError, TypeError, IndexError):
                continue
            ok = True
            for c, kept, val in cases:
                try:
                    mine = fd.f(val) if kept else fd.unit
                except (Unsupported, AttributeError, TypeError, IndexError):
                    ok = False
                    break
                r = eng.lib.solve_valid(eng, pc + (bz(c),),
                                        term_eq(mine, srcv))
                if not r:
                    ok = False
                    break
            if ok:
                return src.fold(eng, fs)
        return None
    return f


def term_eq(a, b):
    if isb(a) or isb(b):
        return biff(a, b)
    return a == b


def solve_valid(eng, pc, goal):
    from . import solve
    return solve.prove(eng.axioms, pc, bz(goal), 3000, single=True).ok


def seq_add(eng, st, a, b, inplace=False):
    from .eng import ListRec
    ka = 'tuple' if isinstance(a, tuple) else (
        a.kind if isinstance(a, SeqV) else st.heap[a.id].kind)
    sa, sb = need_seq(eng, st, a), need_seq(eng, st, b)
    r = seq_concat(sa, sb)
    if ka == 'tuple':
        return r.items if isinstance(r, CSeq) else SeqV(r, 'tuple')
    if inplace and isinstance(a, Ref):
        mutable(st, a)
        st.heap[a.id] = ListRec(r, ka)
        return a
    return eng_alloc(st, r, ka)


def unop(eng, st, op, v):
    if isinstance(v, Sym):
        nm = {'Invert': 'invert', 'USub': 'neg'}.get(op)
        if nm in v.sc.ops:
            yield from v.sc.ops[nm](eng, st, v, [], {})
            return
        if v.sc.cls is not None:
            f = eng.class_attr(v.sc.cls, '__%s__' % nm, st)
            if f is not None:
                yield from eng.call(Bound(f, v), st, [])
                return
    if isinstance(v, HV):
        yield from v.h_bin(eng, st, op, None, False)
        return
    if isinstance(v, Ref):
        rec = st.heap[v.id]
        if type(rec).__name__ == 'ObjRec' and isinstance(rec.cls, UserClass):
            nm = {'Invert': 'invert', 'USub': 'neg', 'UAdd': 'pos'}[op]
            f = eng.class_attr(rec.cls, '__%s__' % nm, st)
            if f is None:
                yield st, Exc('TypeError', op)
            else:
                yield from eng.call(Bound(f, v), st, [])
            return
    if islistlike(st, v):
        s = as_seq(eng, st, v)
        for s1, q in seq_map(eng, st, s, lambda s_, x: unop(eng, s_, op, x)):
            yield s1, (q if isinstance(q, Exc) else SeqV(q, 'arr'))
        return
    if op == 'USub':
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            yield st, -v
        else:
            if lift(v) is None:
                yield st, Exc('TypeError', 'neg')
            else:
                yield st, num_neg(v)
    elif op == 'UAdd':
        yield st, v
    elif op == 'Invert' and isb(v):
        yield st, bnot(v)
    else:
        raise Unsupported('unary %s on %r' % (op, v))


# ------------------------------------------------------------------ compare

def compare(eng, st, op, a, b):
    if op in ('Is', 'IsNot'):
        r = identical(st, a, b)
        yield st, (r if op == 'Is' else bnot(r))
        return
    if op in ('In', 'NotIn'):
        for s, r in contains(eng, st, a, b):
            yield s, (r if isinstance(r, Exc) or op == 'In' else bnot(r))
        return
    if isinstance(a, HV) and not isinstance(a, OtherV):
        yield from a.h_cmp(eng, st, op, b, False)
        return
    if isinstance(b, HV) and not isinstance(b, OtherV):
        yield from b.h_cmp(eng, st, op, a, True)
        return
    if is_arr(st, a) or is_arr(st, b):
        sa = as_seq(eng, st, a) if islistlike(st, a) else None
        sb = as_seq(eng, st, b) if islistlike(st, b) else None
        if sa is not None and sb is not None:
            if not (isinstance(sa, CSeq) and isinstance(sb, CSeq)):
                raise Unsupported('array comparison of unknown lengths')
            if sa.n != sb.n:
                da, db = depth(eng, st, a), depth(eng, st, b)
                if da > db:
                    pairs = [(x, b) for x in sa.items]
                elif db > da:
                    pairs = [(a, y) for y in sb.items]
                elif op in ('Eq', 'NotEq'):
                    yield st, op == 'NotEq'
                    return
                else:
                    yield st, Exc('ValueError', 'shapes')
                    return
            else:
                da, db = depth(eng, st, a), depth(eng, st, b)
                if da > db:
                    pairs = [(x, b) for x in sa.items]
                elif db > da:
                    pairs = [(a, y) for y in sb.items]
                else:
                    pairs = list(zip(sa.items, sb.items))
        elif sa is not None:
            if b is None:
                yield st, Opaque('array == None')
                return
            if not isinstance(sa, CSeq):
                raise Unsupported('array comparison of unknown length')
            pairs = [(x, b) for x in sa.items]
        else:
            if not isinstance(sb, CSeq):
                raise Unsupported('array comparison of unknown length')
            pairs = [(a, y) for y in sb.items]
        out = []
        for x, y in pairs:
            xx = SeqV(as_seq(eng, st, x), 'arr') if islistlike(st, x) else x
            yy = SeqV(as_seq(eng, st, y), 'arr') if islistlike(st, y) else y
            rs = list(compare(eng, st, op, xx, yy))
            if len(rs) != 1 or isinstance(rs[0][1], Exc):
                raise Unsupported('array comparison')
            out.append(rs[0][1])
        yield st, SeqV(CSeq(out), 'arr')
        return
    if op in ('Eq', 'NotEq'):
        for s, r in equal(eng, st, a, b):
            yield s, (r if isinstance(r, Exc) or op == 'Eq' else bnot(r))
        return
    yield from order(eng, st, op, a, b)


def order(eng, st, op, a, b):
    if isinstance(a, str) and isinstance(b, str):
        yield st, {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        return
    if isinstance(a, Sym) and isinstance(b, Sym) and 'lt' in a.sc.ops:
        x, y = (a, b) if op in ('Lt', 'LtE') else (b, a)
        r = a.sc.ops['lt'](eng, st, x, y)
        if op in ('LtE', 'GtE'):
            r = bor(r, x.e == y.e)
        yield st, r
        return
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        if op == 'Lt':
            yield st, cmp_lt(la, lb)
        elif op == 'LtE':
            yield st, cmp_le(la, lb)
        elif op == 'Gt':
            yield st, cmp_lt(lb, la)
        else:
            yield st, cmp_le(lb, la)
        return
    if islistlike(st, a) and islistlike(st, b):
        sa, sb = as_seq(eng, st, a), as_seq(eng, st, b)
        if isinstance(sa, CSeq) and isinstance(sb, CSeq):
            yield st, lex(eng, st, op, list(sa.items), list(sb.items))
            return
        raise Unsupported('ordering sequences')
    if isinstance(a, Ref) and type(st.heap[a.id]).__name__ == 'ObjRec':
        nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__',
              'GtE': '__ge__'}[op]
        f = eng.class_attr(st.heap[a.id].cls, nm, st)
        if f is not None:
            yield from eng.call(Bound(f, a), st, [b])
            return
    if la is None and lb is None and (a is None or b is None):
        yield st, Exc('TypeError', 'ordering None')
        return
    if a is None or b is None:
        yield st, Exc('TypeError', 'ordering None')
        return
    raise Unsupported('ordering %r %r' % (a, b))


def lex(eng, st, op, a, b):
    if not a or not b:
        la, lb = len(a), len(b)
        return {'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb,
                'GtE': la >= lb}[op]
    e = one(equal(eng, st, a[0], b[0]))
    if isinstance(e, bool):
        if e:
            return lex(eng, st, op, a[1:], b[1:])
        return one(order(eng, st, op, a[0], b[0]))
    return bor(band(e, lex(eng, st, op, a[1:], b[1:])),
               band(bnot(e), one(order(eng, st, op, a[0], b[0]))))


def one(it):
    r = list(it)
    if len(r) != 1 or isinstance(r[0][1], Exc):
        raise Unsupported('comparison')
    return r[0][1]


def identical(st, a, b):
    if a is None or b is None:
        if isinstance(a, HV) and hasattr(a, 'h_isnone') and b is None:
            return a.h_isnone()
        return a is None and b is None
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, Ref) != isinstance(b, Ref):
        return False
    if isinstance(a, (Cls, UserClass)) and isinstance(b, (Cls, UserClass,
                                                          SymCls)):
        return same_class(a, b)
    if isinstance(a, SymCls):
        return same_class(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym) and a.sc is b.sc:
        return a.e == b.e
    if a is b:
        return True
    raise Unsupported('identity of %r and %r' % (a, b))


def equal(eng, st, a, b):
    if isinstance(a, (Cls, UserClass, SymCls)) or \
            isinstance(b, (Cls, UserClass, SymCls)):
        if isinstance(a, (Cls, UserClass, SymCls)) and \
                isinstance(b, (Cls, UserClass, SymCls)):
            yield st, same_class(a, b)
        elif isinstance(a, Ext) or isinstance(b, Ext):
            yield st, False
        else:
            yield st, False
        return
    if isinstance(a, OtherV) or isinstance(b, OtherV):
        yield st, eng.fresh('othereq', z3.BoolSort())
        return
    if a is None or b is None:
        yield st, a is None and b is None
        return
    if isb(a) and isb(b):
        yield st, biff(a, b)
        return
    la, lb = lift(a), lift(b)
    if la is not None and lb is not None:
        yield st, cmp_eq(la, lb)
        return
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            yield st, a == b
            return
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('text comparison')
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, t = (a, b) if isinstance(a, Sym) else (b, a)
            if 'eqstr' in s.sc.ops:
                yield st, s.sc.ops['eqstr'](eng, st, s, t)
                return
            raise Unsupported('comparison of %r and %r' % (a, b))
        yield st, False
        return
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.sc is b.sc:
            yield st, a.e == b.e
            return
        yield st, False
        return
    if isinstance(a, HV):
        yield from a.h_cmp(eng, st, 'Eq', b, False)
        return
    if isinstance(b, HV):
        yield from b.h_cmp(eng, st, 'Eq', a, True)
        return
    if islistlike(st, a) and islistlike(st, b):
        # tuple == list is False in Python
        def k(v):
            return 'tuple' if isinstance(v, tuple) else (
                v.kind if isinstance(v, SeqV) else st.heap[v.id].kind)
        if k(a) != k(b):
            yield st, False
            return
        sa, sb = as_seq(eng, st, a), as_seq(eng, st, b)
        if isinstance(sa, CSeq) and isinstance(sb, CSeq):
            if sa.n != sb.n:
                yield st, False
                return
            acc = True
            for x, y in zip(sa.items, sb.items):
                acc = band(acc, one(equal(eng, st, x, y)))
            yield st, acc
            return
        if isinstance(sa, CSeq) or isinstance(sb, CSeq):
            c, f = (sa, sb) if isinstance(sa, CSeq) else (sb, sa)
            acc = zi(f.n) == c.n
            for j, x in enumerate(c.items):
                acc = band(acc, one(equal(eng, st, x, f.get(j))))
            yield st, acc
            return
        raise Unsupported('equality of sequences of unknown length')
    if islistlike(st, a) != islistlike(st, b):
        yield st, False
        return
    if isinstance(a, Ref) and isinstance(b, Ref):
        ra = st.heap[a.id]
        if type(ra).__name__ == 'ObjRec' and isinstance(ra.cls, UserClass):
            f = eng.class_attr(ra.cls, '__eq__', st)
            if f is not None:
                yield from eng.call(Bound(f, a), st, [b])
                return
        if a.id == b.id:
            yield st, True
            return
        if type(ra).__name__ == 'AbsRec':
            yield from ra.data.h_eqref(eng, st, a, b)
            return
        rb = st.heap[b.id]
        if type(ra).__name__ == 'ObjRec' and type(rb).__name__ == 'ObjRec':
            bases = [getattr(x, 'name', '')
                     for x in eng.class_bases(ra.cls, st)]
            if any('PRecord' in x for x in bases):
                raise Unsupported('record equality')
            yield st, False
            return
    if isinstance(a, Ref) != isinstance(b, Ref):
        yield st, False
        return
    raise Unsupported('equality of %r and %r' % (a, b))


def contains(eng, st, v, c):
    if isinstance(c, HV):
        yield from c.h_contains(eng, st, v)
        return
    if isinstance(c, Ref):
        rec = st.heap[c.id]
        if type(rec).__name__ == 'DictRec':
            yield st, key_of(v) in rec.d
            return
        if type(rec).__name__ == 'AbsRec':
            yield from rec.data.h_contains(eng, st, v)
            return
    if isinstance(c, str) and isinstance(v, str):
        yield st, v in c
        return
    s = as_seq(eng, st, c)
    if s is None:
        raise Unsupported('containment in %r' % (c,))
    if isinstance(s, CSeq):
        acc = False
        for x in s.items:
            acc = bor(acc, one(equal(eng, st, v, x)))
        yield st, acc
        return
    raise Unsupported('containment in a sequence of unknown length')


# ------------------------------------------------------------------ attributes

def attr(eng, st, o, name):
    if isinstance(o, HV):
        yield from o.h_attr(eng, st, name)
        return
    if name == '__class__':
        yield st, class_of(eng, st, o)
        return
    if isinstance(o, Opaque):
        if name.startswith('__'):
            yield st, Opaque(o.what + '.' + name)
            return
        raise Unsupported('attribute %s of %r' % (name, o))
    if isinstance(o, (Num, X, int, float)) and not isinstance(o, bool):
        if name in ('numerator', 'denominator'):
            hook = eng.attr_hooks.get(name)
            if hook is None:
                raise Unsupported(name)
            yield st, hook(eng, st, o)
            return
        if name in ('real',):
            yield st, o
            return
        yield st, Exc('AttributeError', name)
        return
    if isinstance(o, Cls):
        if name == '__name__':
            yield st, o.name
            return
        yield st, Ext('cls.%s.%s' % (o.name, name))
        return
    if isinstance(o, str) and 'strattr' in eng.attr_hooks:
        yield from eng.attr_hooks['strattr'](eng, st, o, name)
        return
    if o is None:
        yield st, Exc('AttributeError', 'None.%s' % name)
        return
    if is_arr(st, o):
        if name == 'T':
            yield st, transpose(eng, st, o)
            return
        if name == 'shape':
            yield st, shape_of(eng, st, o)
            return
        if name in ('dot', 'tolist', 'astype', 'copy', 'sum', 'min', 'max',
                    'all', 'any', 'reshape'):
            yield st, Ext('ndarray.' + name, o)
            return
    if islistlike(st, o) or isinstance(o, str) or isinstance(o, Ref):
        if isinstance(o, Ref):
            rec = st.heap[o.id]
            if type(rec).__name__ == 'AbsRec':
                yield from rec.data.h_attrref(eng, st, o, name)
                return
            if type(rec).__name__ == 'ObjRec':
                yield st, Exc('AttributeError', name)
                return
        k = class_of(eng, st, o) if not isinstance(o, str) else Cls('str')
        yield st, Ext('%s.%s' % (k.name, name), o)
        return
    if isinstance(o, (UserFunc, Bound)) and name in ('__name__', '__doc__'):
        yield st, Opaque(name)
        return
    if isinstance(o, (PyFn, Bound, UserFunc)):
        yield st, Exc('AttributeError', name)
        return
    raise Unsupported('attribute %s of %r' % (name, o))


def transpose(eng, st, o):
    s = as_seq(eng, st, o)
    rows = [as_seq(eng, st, r) for r in s.items]
    if any(r is None for r in rows):
        return o
    return SeqV(CSeq([SeqV(CSeq([r.items[j] for r in rows]), 'arr')
                      for j in range(rows[0].n)]), 'arr')


def shape_of(eng, st, o):
    out = []
    while islistlike(st, o):
        s = as_seq(eng, st, o)
        out.append(s.n if isinstance(s.n, int) else Num('int', s.n))
        if isinstance(s, CSeq) and s.n == 0:
            break
        o = s.get(0) if isinstance(s, CSeq) else s.get(z3.IntVal(0))
    return tuple(out)


def inherited(eng, st, o, cls, name):
    """attributes PRecord subclasses inherit"""
    if name in ('set', 'transform', 'get', 'keys', 'items', 'values',
                'remove', 'update', 'evolver', 'discard'):
        h = eng.attr_hooks.get('record_' + name)
        if h is not None:
            yield st, PyFn(lambda e, s, a, k: h(e, s, o, a, k), name)
            return
        if name == 'set':
            yield st, PyFn(lambda e, s, a, k: rec_set(e, s, o, a, k), name)
            return
        if name == 'transform':
            yield st, PyFn(lambda e, s, a, k: rec_transform(e, s, o, a, k),
                           name)
            return
        raise Unsupported('record method %s' % name)
    yield st, Exc('AttributeError', name)


def rec_set(eng, st, o, args, kw):
    from .eng import ObjRec
    rec = st.heap[o.id]
    d = dict(rec.fields)
    if args:
        if len(args) != 2 or not isinstance(args[0], str):
            raise Unsupported('record set')
        d[args[0]] = args[1]
    d.update(kw)
    yield st, st.alloc(ObjRec(rec.cls, d))


def rec_transform(eng, st, o, args, kw):
    """path transform: record field / map key / ... -> f(old)"""
    from .eng import ObjRec
    if len(args) != 2:
        raise Unsupported('transform arguments')
    path = need_seq(eng, st, args[0])
    if not isinstance(path, CSeq):
        raise Unsupported('transform path')
    yield from _transform(eng, st, o, list(path.items), args[1])


def _transform(eng, st, o, path, f):
    from .eng import ObjRec
    if not path:
        if isinstance(f, (PyFn, UserFunc, Bound, Ext, Cls)):
            yield from eng.call(f, st, [o])
        else:
            yield st, f
        return
    k = path[0]
    if isinstance(o, HV) and hasattr(o, 'h_with'):
        for s, old in o.h_item(eng, st, k):
            if isinstance(old, Exc):
                yield s, old
                continue
            for s1, v in _transform(eng, s, old, path[1:], f):
                yield s1, (v if isinstance(v, Exc) else o.h_with(k, v))
        return
    if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjRec):
        rec = st.heap[o.id]
        if not isinstance(k, str) or k not in rec.fields:
            raise Unsupported('transform of missing field %r' % (k,))
        for s, v in _transform(eng, st, rec.fields[k], path[1:], f):
            if isinstance(v, Exc):
                yield s, v
            else:
                d = dict(rec.fields)
                d[k] = v
                yield s, s.alloc(ObjRec(rec.cls, d))
        return
    for s, old in getitem(eng, st, o, k):
        if isinstance(old, Exc):
            yield s, old
            continue
        for s1, v in _transform(eng, s, old, path[1:], f):
            if isinstance(v, Exc):
                yield s1, v
                continue
            for s2, m in eng.getattr(s1, o, 'set'):
                yield from eng.call(m, s2, [k, v])


def abs_truth(eng, st, v, rec):
    return rec.data.h_truth(eng, st)


# ------------------------------------------------------------------ comprehension

def comprehension(eng, n, st, kind):
    """list/generator/set comprehension"""
    gens = n.generators
    for s, q in comp_gen(eng, n, gens, 0, st):
        if isinstance(q, Exc):
            yield s, q
            continue
        if kind == 'list':
            yield s, eng_alloc(s, q)
        elif kind == 'iter':
            yield s, SeqV(q, 'iter')
        else:
            yield from make_set_from_seq(eng, s, q)


def make_set_from_seq(eng, st, q):
    mk = eng.attr_hooks.get('set_of_seq')
    if mk is None:
        raise Unsupported('set of sequence')
    yield from mk(eng, st, q)


def comp_gen(eng, n, gens, gi, st):
    g = gens[gi]
    # comprehension scope: new frame whose parent is the current one
    fid = next(_ids)
    fid = 'comp%d' % fid
    save = st.fid
    for s, it in eng.ev(g.iter, st):
        if isinstance(it, Exc):
            yield s, it
            continue
        seq = as_seq(eng, s, it, iterate=True)
        if seq is None:
            raise Unsupported('comprehension over %r' % (it,))
        outer = s.fid
        s.frames[fid] = {'__mod__': s.env['__mod__'], '__parent__': outer,
                         '__globals__': set()}

        last = gi == len(gens) - 1

        def elem(s1, x):
            s1.fid = fid
            for s2, e in eng.assign(g.target, x, s1):
                if e is not None:
                    s2.fid = outer
                    yield s2, e
                    continue
                yield from conds(s2, list(g.ifs))

        def conds(s2, ifs):
            if not ifs:
                if last:
                    for s3, v in eng.ev(n.elt, s2):
                        s3.fid = outer
                        yield s3, (v if isinstance(v, Exc) else ('some', v))
                else:
                    for s3, q in comp_gen(eng, n, gens, gi + 1, s2):
                        s3.fid = outer
                        yield s3, (q if isinstance(q, Exc) else ('seq', q))
                return
            for s3, c in eng.ev(ifs[0], s2):
                if isinstance(c, Exc):
                    s3.fid = outer
                    yield s3, c
                    continue
                for s4, t in eng.truth(c, s3):
                    for s5, b in eng.split(s4, t):
                        if b:
                            yield from conds(s5, ifs[1:])
                        else:
                            s5.fid = outer
                            yield s5, ('none',)
        if isinstance(seq, CSeq):
            acc = [(s, ())]
            for x in seq.items:
                nxt = []
                for s1, l in acc:
                    if isinstance(l, Exc):
                        nxt.append((s1, l))
                        continue
                    for s2, r in elem(s1, x):
                        if isinstance(r, Exc):
                            nxt.append((s2, r))
                        elif r[0] == 'none':
                            nxt.append((s2, l))
                        elif r[0] == 'some':
                            nxt.append((s2, l + (('v', r[1]),)))
                        else:
                            nxt.append((s2, l + (('q', r[1]),)))
                acc = nxt
            for s1, l in acc:
                if isinstance(l, Exc):
                    yield s1, l
                    continue
                q = CSeq(())
                for t, v in l:
                    q = seq_append(q, v) if t == 'v' else seq_concat(q, v)
                yield s1, q
        elif not g.ifs and last:
            def f(s1, x):
                for s2, r in elem(s1, x):
                    if isinstance(r, Exc):
                        yield s2, r
                    else:
                        yield s2, r[1]
            for s1, q in seq_map(eng, s, seq, f):
                s1.fid = outer
                yield s1, q
        elif g.ifs and last:
            yield from filter_seq(eng, s, seq, elem)
        else:
            h = eng.attr_hooks.get('nested_comp')
            if h is None:
                raise Unsupported('nested comprehension of unknown length')
            yield from h(eng, n, gens, gi, s, seq, elem)


def filter_seq(eng, st, seq, elem):
    """[e(x) for x in seq if c(x)] for a sequence of unknown length.

    Result: order-preserving subsequence; described by an injection into the
    source, its totality on the kept elements, and folds."""
    i = z3.Int('ix!%d' % next(_ids))
    n = zi(seq.n)
    sub = st.copy()
    base = len(sub.pc)
    sub.assume(i >= 0, i < n)
    b2 = len(sub.pc)
    eng.ictx.append(i)
    try:
        outs = list(elem(sub, seq.get(i)))
    finally:
        eng.ictx.pop()
    for s, v in outs:
        if isinstance(v, Exc):
            j = eng.fresh('fail', z3.IntSort())
            s2 = st.copy()
            s2.assume(*[z3.substitute(p, (i, j)) for p in s.pc[base:]])
            if eng.feasible(s2):
                yield s2, v
    keep = [(s, v[1]) for s, v in outs
            if not isinstance(v, Exc) and v[0] == 'some']
    drop = [s for s, v in outs if not isinstance(v, Exc) and v[0] == 'none']
    if not keep:
        yield st, CSeq(())
        return
    kc = [band(*s.pc[b2:]) if len(s.pc) > b2 else True for s, _ in keep]
    dc = [band(*s.pc[b2:]) if len(s.pc) > b2 else True for s in drop]
    val = freeze(keep[-1][0], keep[-1][1])
    for (s, v), c in zip(keep[-2::-1], kc[-2::-1]):
        val = vite(bz(c), freeze(s, v), val)
    kcond = bor(*kc)
    dcond = bor(*dc) if dc else False
    # every element is kept or dropped
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n),
                                        bz(bor(kcond, dcond)))))
    uid = next(_ids)
    src = z3.Function('fsrc!%d' % uid, z3.IntSort(), z3.IntSort())
    inv = z3.Function('finv!%d' % uid, z3.IntSort(), z3.IntSort())
    m = eng.fresh('fn', z3.IntSort())
    a, b = z3.Ints('a!%d b!%d' % (uid, uid))
    kc_at = lambda t: z3.substitute(bz(kcond), (i, t))
    st.assume(m >= 0, m <= n)
    st.assume(z3.ForAll([a], z3.Implies(
        z3.And(0 <= a, a < m),
        z3.And(0 <= src(a), src(a) < n, kc_at(src(a)), inv(src(a)) == a,
               src(a) >= a)), patterns=[src(a)]))
    st.assume(z3.ForAll([a, b], z3.Implies(
        z3.And(0 <= a, a < b, b < m), src(a) < src(b)),
        patterns=[z3.MultiPattern(src(a), src(b))]))
    # every kept element appears
    dcz = bz(dcond)
    st.assume(z3.ForAll([a], z3.Implies(
        z3.And(0 <= a, a < n, z3.Not(z3.substitute(dcz, (i, a)))),
        z3.And(0 <= inv(a), inv(a) < m, src(inv(a)) == a)),
        patterns=[inv(a)]))
    q = FSeq(m, lambda k, val=val: vsubst(val, [(i, src(zi(k)))]), None,
             'filt')
    q.filter_of = (seq, i, val, kcond, dcond, src, inv)
    q.fold_total = link_fold(st, seq, i, [
        (band(i >= 0, i < n, c), True, freeze(s, v))
        for (s, v), c in zip(keep, kc)] + [
            (band(i >= 0, i < n, c), False, None) for c in dc])
    yield st, q


def dictcomp(eng, n, st):
    h = eng.attr_hooks.get('dictcomp')
    if h is not None:
        r = h(eng, n, st)
        if r is not None:
            yield from r
            return
    from .eng import DictRec
    # concrete keys only
    g = n.generators[0]
    if len(n.generators) != 1:
        raise Unsupported('dict comprehension')
    for s, it in eng.ev(g.iter, st):
        if isinstance(it, Exc):
            yield s, it
            continue
        seq = as_seq(eng, s, it, iterate=True)
        if not isinstance(seq, CSeq):
            raise Unsupported('dict comprehension over %r' % (it,))
        outer = s.fid
        fid = 'comp%d' % next(_ids)
        s.frames[fid] = {'__mod__': s.env['__mod__'], '__parent__': outer,
                         '__globals__': set()}
        acc = [(s, {})]
        for x in seq.items:
            nxt = []
            for s1, d in acc:
                if isinstance(d, Exc):
                    nxt.append((s1, d))
                    continue
                s1.fid = fid
                for s2, e in eng.assign(g.target, x, s1):
                    if e is not None:
                        nxt.append((s2, e))
                        continue
                    sts = [(s2, True)]
                    for c in g.ifs:
                        ns = []
                        for s3, ok in sts:
                            if ok is not True:
                                ns.append((s3, ok))
                                continue
                            for s4, cv in eng.ev(c, s3):
                                if isinstance(cv, Exc):
                                    ns.append((s4, cv))
                                    continue
                                for s5, t in eng.truth(cv, s4):
                                    ns.extend(eng.split(s5, t))
                        sts = ns
                    for s3, ok in sts:
                        if isinstance(ok, Exc):
                            nxt.append((s3, ok))
                            continue
                        if not ok:
                            nxt.append((s3, d))
                            continue
                        for s4, vs in eng.evs([n.key, n.value], s3):
                            if isinstance(vs, Exc):
                                nxt.append((s4, vs))
                                continue
                            d2 = dict(d)
                            d2[key_of(vs[0])] = vs[1]
                            nxt.append((s4, d2))
            acc = nxt
        for s1, d in acc:
            s1.fid = outer
            yield s1, (d if isinstance(d, Exc) else s1.alloc(DictRec(d)))


# ------------------------------------------------------------------ calls

def call_ext(eng, st, f, args, kw):
    name = f.name if isinstance(f, Ext) else 'cls:' + f.name
    if name in eng.extra_ext and callable(eng.extra_ext[name]):
        eng.ext_used.add(name)
        yield from eng.extra_ext[name](eng, st, f, args, kw)
        return
    eng.ext_used.add(name)
    for v in args:
        h = getattr(v, 'h_ext', None)
        if h is not None:
            r = h(eng, st, name, args)
            if r is not None:
                yield st, r
                return
    fn = _CALLS.get(name)
    if fn is None:
        raise Unsupported('external call %s' % name)
    yield from fn(eng, st, f, args, kw)


_CALLS = {}


def ext_fn(*names):
    def deco(f):
        for n in names:
            _CALLS[n] = f
        return f
    return deco


@ext_fn('builtins.len')
def _len(eng, st, f, args, kw):
    v = args[0]
    if isinstance(v, Ref) and type(st.heap[v.id]).__name__ == 'DictRec':
        yield st, len(st.heap[v.id].d)
        return
    if isinstance(v, HV) and hasattr(v, 'h_len'):
        yield st, v.h_len(eng, st)
        return
    if isinstance(v, Ref) and type(st.heap[v.id]).__name__ == 'AbsRec':
        yield st, st.heap[v.id].data.h_len(eng, st)
        return
    if isinstance(v, Sym) and 'len' in v.sc.methods:
        yield from v.sc.methods['len'](eng, st, v, [], {})
        return
    if isinstance(v, SeqV) and v.kind == 'iter':
        yield st, Exc('TypeError', 'len of iterator')
        return
    s = as_seq(eng, st, v)
    if s is None:
        if isnum(v) or v is None:
            yield st, Exc('TypeError', 'len')
            return
        raise Unsupported('len of %r' % (v,))
    yield st, (s.n if isinstance(s.n, int) else Num('int', s.n))


@ext_fn('builtins.range', 'numpy.arange')
def _range(eng, st, f, args, kw):
    kind = 'arr' if f.name == 'numpy.arange' else 'range'
    a = []
    for x in args:
        if isinstance(x, Num):
            e = z3.simplify(x.e)
            a.append(e.as_long() if z3.is_int_value(e) else e)
        elif isinstance(x, (int, z3.ArithRef)):
            a.append(x)
        else:
            yield st, Exc('TypeError', 'range')
            return
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], 1
    else:
        lo, hi, step = a
    if not isinstance(step, int) or step == 0:
        raise Unsupported('range step')
    if isinstance(lo, int) and isinstance(hi, int):
        yield st, SeqV(CSeq(range(lo, hi, step)), kind)
        return
    lo_, hi_ = zi(lo), zi(hi)
    for e in (lo_, hi_):
        if not z3.is_int(e):
            yield st, Exc('TypeError', 'range of non-integer')
            return
    if step > 0:
        n = z3.If(hi_ > lo_, (hi_ - lo_ + (step - 1)) / step, 0)
    else:
        n = z3.If(lo_ > hi_, (lo_ - hi_ + (-step - 1)) / (-step), 0)
    yield st, SeqV(FSeq(z3.simplify(n), lambda i: Num(
        'int', z3.simplify(lo_ + i * step)), None, 'range'), kind)


@ext_fn('cls:list', 'cls:tuple', 'builtins.iter')
def _list(eng, st, f, args, kw):
    if not args:
        yield st, (() if f.name == 'tuple' else eng_alloc(st, CSeq(())))
        return
    s = as_seq(eng, st, args[0], iterate=True)
    if s is None:
        if isnum(args[0]) or args[0] is None:
            yield st, Exc('TypeError', 'not iterable')
            return
        raise Unsupported('list of %r' % (args[0],))
    if f.name == 'tuple':
        yield st, (s.items if isinstance(s, CSeq) else SeqV(s, 'tuple'))
    elif f.name == 'builtins.iter':
        yield st, SeqV(s, 'iter')
    else:
        yield st, eng_alloc(st, s)


@ext_fn('builtins.reversed')
def _reversed(eng, st, f, args, kw):
    yield st, SeqV(seq_reverse(need_seq(eng, st, args[0])), 'iter')


@ext_fn('builtins.zip')
def _zip(eng, st, f, args, kw):
    ss = [need_seq(eng, st, a) for a in args]
    if all(isinstance(s, CSeq) for s in ss):
        yield st, SeqV(CSeq(list(zip(*[s.items for s in ss]))), 'iter')
        return
    n = zi(ss[0].n)
    for s in ss[1:]:
        n = z3.If(zi(s.n) < n, zi(s.n), n)
    yield st, SeqV(FSeq(z3.simplify(n), lambda i: tuple(
        freeze(st, s.get(i)) for s in ss), None, 'zip'), 'iter')


@ext_fn('builtins.enumerate')
def _enumerate(eng, st, f, args, kw):
    s = need_seq(eng, st, args[0])
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    if isinstance(s, CSeq):
        yield st, SeqV(CSeq([(i + start, x) for i, x in
                             enumerate(s.items)]), 'iter')
        return
    yield st, SeqV(FSeq(s.n, lambda i: (Num('int', z3.simplify(i + start)),
                                        s.get(i)), None, 'enum'), 'iter')


class NumFolds:
    """folds that make up a sum of extended numbers; the real part of the
    sum is meaningful only when every summand is finite"""

    def __init__(self):
        def num(v):
            v = lift(v)
            if v is None:
                raise Unsupported('sum of non-numbers')
            return v
        B = z3.BoolSort()
        bor_ = lambda a, b: z3.Or(a, b)
        self.v = Fold('sum:v', z3.RealSort(), z3.RealVal(0),
                      lambda a, b: a + b, lambda v: toX(num(v)).v)
        self.pos = Fold('sum:pos', B, z3.BoolVal(False), bor_,
                        lambda v: bz(toX(num(v)).pos))
        self.neg = Fold('sum:neg', B, z3.BoolVal(False), bor_,
                        lambda v: bz(toX(num(v)).neg))
        self.nan = Fold('sum:nan', B, z3.BoolVal(False), bor_,
                        lambda v: bz(toX(num(v)).nan))

    def all(self):
        return [self.v, self.pos, self.neg, self.nan]


def numfolds(eng):
    if 'numfolds' not in eng.attr_hooks:
        eng.attr_hooks['numfolds'] = NumFolds()
    return eng.attr_hooks['numfolds']


def num_sum(eng, s, start):
    el = lift(s.get(z3.Int('sum!probe')))
    a = lift(start)
    if el is None or a is None:
        raise Unsupported('sum of a sequence of unknown length')
    F = numfolds(eng)
    v, pos, neg, nan = [s.fold(eng, f) for f in F.all()]
    k = 'any'
    if isinstance(el.kind, str) and el.kind != 'bool':
        k = el.kind
    if isinstance(el, Num):
        if z3.is_int(el.e) and k in ('int', 'mpz'):
            raise Unsupported('sum of integers of unknown length')
        return num_add(a, Num(k, v))
    return num_add(a, X(v, band(neg, bnot(pos), bnot(nan)),
                        band(pos, bnot(neg), bnot(nan)),
                        bor(nan, band(pos, neg)), k))


@ext_fn('builtins.sum', 'numpy.sum', 'ndarray.sum')
def _sum(eng, st, f, args, kw):
    v = f.self if f.name.startswith('ndarray') else args[0]
    s = as_seq(eng, st, v)
    if s is None:
        raise Unsupported('sum of %r' % (v,))
    start = args[1] if len(args) > 1 and f.name == 'builtins.sum' else 0
    if isinstance(s, CSeq):
        def go(st, acc, items):
            if not items:
                yield st, acc
                return
            for s1, r in binop(eng, st, 'Add', acc, items[0]):
                if isinstance(r, Exc):
                    yield s1, r
                else:
                    yield from go(s1, r, items[1:])
        yield from go(st, start, list(s.items))
        return
    h = eng.attr_hooks.get('sum')
    if h is not None:
        yield from h(eng, st, s, start)
        return
    yield st, num_sum(eng, s, start)


@ext_fn('builtins.min', 'builtins.max', 'numpy.min', 'numpy.max')
def _minmax(eng, st, f, args, kw):
    ismax = f.name.endswith('max')
    if kw:
        raise Unsupported('min/max with key')
    if len(args) == 1:
        s = as_seq(eng, st, args[0])
        if s is None:
            raise Unsupported('max of %r' % (args[0],))
        if not isinstance(s, CSeq):
            h = eng.attr_hooks.get('minmax')
            if h is not None:
                yield from h(eng, st, s, ismax)
                return
            yield from seq_minmax(eng, st, s, ismax)
            return
        items = list(s.items)
    else:
        items = list(args)
    if not items:
        yield st, Exc('ValueError', 'empty sequence')
        return
    acc = items[0]
    for x in items[1:]:
        la, lx = lift(acc), lift(x)
        if la is None or lx is None:
            if islistlike(st, acc) and islistlike(st, x):
                raise Unsupported('max of sequences')
            yield st, Exc('TypeError', 'max')
            return
        if pyint(acc) and pyint(x):
            acc = max(acc, x) if ismax else min(acc, x)
        else:
            c = cmp_lt(la, lx) if ismax else cmp_lt(lx, la)
            acc = vite(bz(c), x, acc)
    yield st, acc


def seq_minmax(eng, st, s, ismax):
    """numeric min/max of a non-empty sequence of unknown length"""
    for s1, b in eng.split(st, zi(s.n) > 0):
        if not b:
            yield s1, Exc('ValueError', 'empty sequence')
            continue
        j = eng.fresh('arg', z3.IntSort())
        i = z3.Int('mi!%d' % next(_ids))
        r = s.get(j)
        e = s.get(i)
        s1.assume(j >= 0, j < zi(s.n))
        c = cmp_le(e, r) if ismax else cmp_le(r, e)
        s1.assume(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < zi(s.n)), bz(c))))
        yield s1, r


@ext_fn('builtins.abs', 'numpy.abs')
def _abs(eng, st, f, args, kw):
    v = args[0]
    if isinstance(v, tuple) and f.name == 'builtins.abs':
        yield st, Exc('TypeError', 'abs of a tuple')
        return
    if islistlike(st, v):
        s = as_seq(eng, st, v)
        for s1, q in seq_map(eng, st, s,
                             lambda s_, x: _abs(eng, s_, f, [x], {})):
            yield s1, (q if isinstance(q, Exc) else SeqV(q, 'arr'))
        return
    if pyint(v) or isinstance(v, float):
        yield st, abs(v)
        return
    if isinstance(v, OtherV):
        if getattr(v, 'noabs', True):
            yield st, Exc('TypeError', 'abs')
        else:
            yield st, OtherV()
        return
    if lift(v) is None:
        yield st, Exc('TypeError', 'abs')
        return
    yield st, num_abs(v)


@ext_fn('builtins.any', 'builtins.all', 'numpy.any', 'numpy.all',
        'ndarray.any', 'ndarray.all')
def _anyall(eng, st, f, args, kw):
    isany = f.name.endswith('any')
    v = f.self if f.name.startswith('ndarray') else args[0]
    if isb(v):
        yield st, v
        return
    if isinstance(v, (Num, X, int)):
        yield from eng.truth(v, st)
        return
    s = as_seq(eng, st, v)
    if s is None:
        raise Unsupported('any/all of %r' % (v,))
    if isinstance(s, CSeq):
        acc = not isany
        cur = [(st, acc)]
        for x in s.items:
            nxt = []
            for s1, a in cur:
                if islistlike(s1, x):
                    rs = _anyall(eng, s1, f if not f.name.startswith(
                        'ndarray') else Ext('numpy.' + f.name[8:]), [x], {})
                else:
                    rs = eng.truth(x, s1)
                for s2, t in rs:
                    if isinstance(t, Exc):
                        nxt.append((s2, t))
                    else:
                        nxt.append((s2, a if isinstance(a, Exc) else
                                    bor(a, t) if isany else band(a, t)))
            cur = nxt
        yield from cur
        return
    i = z3.Int('ix!%d' % next(_ids))
    rs = list(eng.truth(s.get(i), st))
    if len(rs) != 1 or not isb(rs[0][1]):
        raise Unsupported('any/all')
    rng = z3.And(i >= 0, i < zi(s.n))
    if isany:
        yield st, z3.Exists([i], z3.And(rng, bz(rs[0][1])))
    else:
        yield st, z3.ForAll([i], z3.Implies(rng, bz(rs[0][1])))


def inst_of(eng, st, v, c):
    """Bool: isinstance(v, c)"""
    if isinstance(c, tuple):
        return bor(*[inst_of(eng, st, v, x) for x in c])
    k = class_of(eng, st, v)
    if isinstance(c, Ext) and c.name in ('numpy.ndarray',):
        return isinstance(k, Cls) and k.name == 'ndarray'
    if isinstance(c, Ext):
        if isinstance(k, Cls) and not isinstance(v, OtherV):
            return False
        raise Unsupported('isinstance of %s' % c.name)
    if isinstance(k, SymCls):
        if isinstance(c, Cls) and c.name == 'int':
            return bor(same_class(k, c), same_class(k, Cls('bool')))
        return same_class(k, c)
    if isinstance(k, Cls) and isinstance(c, Cls):
        if k.name == 'bool' and c.name == 'int':
            return True
        if c.name == 'object':
            return True
        return k.name == c.name
    if isinstance(k, UserClass) and isinstance(c, UserClass):
        todo = [k]
        while todo:
            x = todo.pop()
            if x.key == c.key:
                return True
            todo.extend(b for b in eng.class_bases(x, st)
                        if isinstance(b, UserClass))
        return False
    if isinstance(c, Cls) and c.name == 'object':
        return True
    return False


@ext_fn('builtins.isinstance')
def _isinstance(eng, st, f, args, kw):
    yield st, inst_of(eng, st, args[0], args[1])


@ext_fn('builtins.type')
def _type(eng, st, f, args, kw):
    if len(args) != 1:
        raise Unsupported('type()')
    yield st, class_of(eng, st, args[0])


@ext_fn('builtins.callable')
def _callable(eng, st, f, args, kw):
    yield st, isinstance(args[0], (UserFunc, PyFn, Bound, Ext, Cls,
                                   UserClass))


@ext_fn('builtins.hasattr')
def _hasattr(eng, st, f, args, kw):
    rs = list(eng.getattr(st, args[0], args[1]))
    yield st, not (len(rs) == 1 and isinstance(rs[0][1], Exc))


@ext_fn('builtins.getattr')
def _getattr(eng, st, f, args, kw):
    for s, v in eng.getattr(st, args[0], args[1]):
        if isinstance(v, Exc) and v.name == 'AttributeError' and \
                len(args) > 2:
            yield s, args[2]
        else:
            yield s, v


@ext_fn('builtins.print')
def _print(eng, st, f, args, kw):
    yield st, None


@ext_fn('builtins.locals', 'builtins.repr', 'cls:str', 'builtins.hash')
def _opaque(eng, st, f, args, kw):
    if f.name == 'str' and len(args) == 1:
        if isinstance(args[0], str):
            yield st, args[0]
            return
        h = eng.attr_hooks.get('str')
        if h is not None:
            yield st, h(eng, st, args[0])
            return
    yield st, Opaque(f.name)


@ext_fn('cls:bool')
def _bool(eng, st, f, args, kw):
    yield from eng.truth(args[0], st)


@ext_fn('cls:int', 'math.trunc')
def _int(eng, st, f, args, kw):
    v = args[0]
    if isinstance(v, int):
        yield st, int(v)
        return
    l = lift(v)
    if l is None:
        if isinstance(v, OtherV):
            yield st, Exc('TypeError', 'int of other')
            return
        raise Unsupported('int of %r' % (v,))
    if isinstance(l, X):
        bad = bor(l.nan, l.neg, l.pos)
        for s, b in eng.split(st, bad):
            if b:
                yield s, Exc('ValueError', 'int of nan/inf')
            else:
                i = z3.ToInt(l.v)
                yield s, Num('int', z3.If(
                    z3.Or(l.v >= 0, z3.ToReal(i) == l.v), i, i + 1))
        return
    if z3.is_int(l.e):
        yield st, Num('int', l.e)
        return
    i = z3.ToInt(l.e)
    yield st, Num('int', z3.If(z3.Or(l.e >= 0, z3.ToReal(i) == l.e), i,
                               i + 1))


@ext_fn('cls:float', 'numpy.float64')
def _float(eng, st, f, args, kw):
    l = lift(args[0]) if args else 0.0
    if l is None:
        raise Unsupported('float of %r' % (args[0],))
    if isinstance(l, X):
        yield st, X(l.v, l.neg, l.pos, l.nan, 'float')
        return
    from . import val
    if not val.ROUND:
        eng.notes.add('float() of an exact number treated as exact')
    elif isinstance(l.kind, str) and l.kind == 'float':
        yield st, l
        return
    yield st, Num('float', val.rnd('float', real(l.e)))


@ext_fn('cls:mpq')
def _mpq(eng, st, f, args, kw):
    def conv(s, v):
        if isinstance(v, str):
            raise Unsupported('mpq of text')
        l = lift(v)
        if l is None:
            yield s, Exc('TypeError', 'mpq')
            return
        if isinstance(l, X):
            for s1, b in eng.split(s, bor(l.nan, l.neg, l.pos)):
                if b:
                    yield s1, Exc('ValueError', 'mpq of nan/inf')
                else:
                    yield s1, Num('mpq', l.v)
            return
        yield s, Num('mpq', real(l.e))
    if len(args) == 0:
        yield st, Num('mpq', z3.RealVal(0))
        return
    if len(args) == 1:
        yield from conv(st, args[0])
        return
    for s, a in conv(st, args[0]):
        if isinstance(a, Exc):
            yield s, a
            continue
        for s1, b in conv(s, args[1]):
            if isinstance(b, Exc):
                yield s1, b
                continue
            for s2, ok in eng.split(s1, bnot(cmp_eq(b, 0))):
                if ok:
                    yield s2, Num('mpq', z3.simplify(a.e / b.e))
                else:
                    yield s2, Exc('ZeroDivisionError', '')


@ext_fn('cls:mpz')
def _mpz(eng, st, f, args, kw):
    for s, v in _int(eng, st, f, args, kw):
        if isinstance(v, Exc):
            yield s, v
        else:
            yield s, Num('mpz', lift(v).e)


@ext_fn('math.isfinite', 'numpy.isfinite')
def _isfinite(eng, st, f, args, kw):
    l = lift(args[0])
    if l is None:
        raise Unsupported('isfinite')
    yield st, (l.fin() if isinstance(l, X) else True)


@ext_fn('math.isnan', 'numpy.isnan')
def _isnan(eng, st, f, args, kw):
    l = lift(args[0])
    yield st, (l.nan if isinstance(l, X) else False)


@ext_fn('math.isinf', 'numpy.isinf')
def _isinf(eng, st, f, args, kw):
    l = lift(args[0])
    yield st, (bor(l.neg, l.pos) if isinstance(l, X) else False)


@ext_fn('numpy.sign')
def _sign(eng, st, f, args, kw):
    l = lift(args[0])
    if l is None or isinstance(l, X):
        raise Unsupported('sign')
    yield st, Num('int', z3.If(l.e > 0, 1, z3.If(l.e < 0, -1, 0)))


@ext_fn('numpy.ceil', 'math.ceil', 'numpy.floor', 'math.floor')
def _ceil(eng, st, f, args, kw):
    l = lift(args[0])
    if l is None or isinstance(l, X):
        raise Unsupported('ceil')
    k = 'float' if f.name.startswith('numpy') and l.kind == 'float' else 'int'
    e = real(l.e)
    i = floor_of(eng, st, e)
    if 'ceil' in f.name:
        i = z3.If(z3.ToReal(i) == e, i, i + 1)
    yield st, Num(k, i if k == 'int' else z3.ToReal(i))


@ext_fn('math.sqrt')
def _sqrt(eng, st, f, args, kw):
    l = lift(args[0])
    if l is None or isinstance(l, X):
        raise Unsupported('sqrt')
    for s, b in eng.split(st, bnot(cmp_lt(l, 0))):
        if not b:
            yield s, Exc('ValueError', 'sqrt')
            continue
        r = eng.fresh('sqrt', z3.RealSort())
        s.assume(r >= 0, r * r == real(l.e))
        eng.notes.add('math.sqrt treated as exact')
        yield s, Num('float', r)


def to_arr_value(eng, st, v):
    """nested immutable array value"""
    if islistlike(st, v):
        s = as_seq(eng, st, v)
        if isinstance(s, CSeq):
            return SeqV(CSeq([to_arr_value(eng, st, x) for x in s.items]),
                        'arr')
        el = s.get(z3.IntVal(0))
        if islistlike(st, el):
            q = FSeq(s.n, lambda i: to_arr_value(eng, st, s.get(i)),
                     s.foldf, 'arr')
            return SeqV(q, 'arr')
        return SeqV(s, 'arr')
    return v


@ext_fn('numpy.array', 'numpy.asarray', 'numpy.stack')
def _array(eng, st, f, args, kw):
    from .eng import ListRec
    v = args[0]
    if (f.name == 'numpy.asarray' or kw.get('copy', True) is not True) and \
            isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec) \
            and st.heap[v.id].kind == 'arr':
        # no copy is made of an array of exact numbers
        yield st, v
        return
    if not islistlike(st, v):
        s = as_seq(eng, st, v)
        if s is None:
            if isnum(v):
                yield st, v
                return
            raise Unsupported('array of %r' % (v,))
        v = SeqV(s, 'list')
    a = to_arr_value(eng, st, v)
    hook = eng.attr_hooks.get('np.array')
    if hook is not None:
        r = hook(eng, st, a, args, kw)
        if r is not None:
            yield st, r
            return
    yield st, st.alloc(ListRec(a.seq, 'arr'))


@ext_fn('ndarray.tolist')
def _tolist(eng, st, f, args, kw):
    def rec(v):
        if islistlike(st, v):
            s = as_seq(eng, st, v)
            if isinstance(s, CSeq):
                return eng_alloc(st, CSeq([rec(x) for x in s.items]))
            return eng_alloc(st, s)
        return v
    yield st, rec(f.self)


@ext_fn('ndarray.copy', 'ndarray.astype')
def _acopy(eng, st, f, args, kw):
    from .eng import ListRec
    yield st, st.alloc(ListRec(as_seq(eng, st, f.self), 'arr'))


@ext_fn('numpy.dot', 'ndarray.dot')
def _dot(eng, st, f, args, kw):
    if f.name == 'ndarray.dot':
        args = [f.self] + list(args)
    a, b = args
    da, db = depth(eng, st, a), depth(eng, st, b)
    if da == 1 and db == 1:
        sa, sb = as_seq(eng, st, a), as_seq(eng, st, b)
        if not (isinstance(sa, CSeq) and isinstance(sb, CSeq)):
            raise Unsupported('dot')
        if sa.n != sb.n:
            yield st, Exc('ValueError', 'shapes')
            return
        acc = None
        for x, y in zip(sa.items, sb.items):
            rs = one(binop(eng, st, 'Mult', x, y))
            acc = rs if acc is None else one(binop(eng, st, 'Add', acc, rs))
        yield st, (0 if acc is None else acc)
        return
    if da == 2 and db == 1:
        sa = as_seq(eng, st, a)
        for s1, q in seq_map(eng, st, sa, lambda s_, x: _dot(
                eng, s_, Ext('numpy.dot'), [x, b], {})):
            yield s1, (q if isinstance(q, Exc) else SeqV(q, 'arr'))
        return
    if da == 1 and db == 2:
        yield from _dot(eng, st, Ext('numpy.dot'),
                        [transpose(eng, st, b), a], {})
        return
    raise Unsupported('dot of these shapes')


@ext_fn('numpy.zeros')
def _zeros(eng, st, f, args, kw):
    from .eng import ListRec
    n = args[0]
    if isinstance(n, Num):
        e = z3.simplify(n.e)
        n = e.as_long() if z3.is_int_value(e) else n
    if isinstance(n, int):
        yield st, st.alloc(ListRec(CSeq([Num('float', z3.RealVal(0))
                                         for _ in range(n)]), 'arr'))
    elif isinstance(n, Num):
        yield st, st.alloc(ListRec(FSeq(n.e, lambda i: Num(
            'float', z3.RealVal(0)), None, 'zeros'), 'arr'))
    else:
        raise Unsupported('zeros')


@ext_fn('numpy.argmax', 'numpy.argmin')
def _argmax(eng, st, f, args, kw):
    s = need_seq(eng, st, args[0])
    mx = f.name.endswith('max')
    if isinstance(s, CSeq):
        if s.n == 0:
            yield st, Exc('ValueError', 'empty')
            return
        best, bi = s.items[0], 0
        for j in range(1, s.n):
            c = cmp_lt(best, s.items[j]) if mx else cmp_lt(s.items[j], best)
            best = vite(bz(c), s.items[j], best)
            bi = vite(bz(c), j, bi)
        yield st, bi
        return
    j = eng.fresh('arg', z3.IntSort())
    for s1, b in eng.split(st, zi(s.n) > 0):
        if not b:
            yield s1, Exc('ValueError', 'empty')
            continue
        s1.assume(j >= 0, j < zi(s.n))
        yield s1, Num('int', j)


@ext_fn('builtins.sorted')
def _sorted(eng, st, f, args, kw):
    s = need_seq(eng, st, args[0])
    h = eng.attr_hooks.get('sorted')
    if h is not None:
        r = h(eng, st, s, kw)
        if r is not None:
            yield from r
            return
    if kw:
        raise Unsupported('sorted with key')
    if isinstance(s, CSeq) and s.n <= 4:
        # sort by comparisons (insertion), deterministic on paths
        yield from sort_small(eng, st, list(s.items))
        return
    if isinstance(s, CSeq):
        raise Unsupported('sorted')
    yield from sort_sym(eng, st, s)


def sort_small(eng, st, items):
    def ins(s, done, todo):
        if not todo:
            yield s, eng_alloc(s, CSeq(done))
            return
        x = todo[0]
        yield from place(s, done, x, len(done), todo[1:])

    def place(s, done, x, pos, rest):
        if pos == 0:
            yield from ins(s, [x] + done, rest)
            return
        for s1, lt in order(eng, s, 'Lt', x, done[pos - 1]):
            if isinstance(lt, Exc):
                yield s1, lt
                continue
            for s2, b in eng.split(s1, lt):
                if b:
                    yield from place(s2, done, x, pos - 1, rest)
                else:
                    yield from ins(s2, done[:pos] + [x] + done[pos:], rest)
    yield from ins(st, [], items)


def sort_sym(eng, st, s):
    """sorted(): an ordered permutation (of comparable elements)"""
    uid = next(_ids)
    pi = z3.Function('perm!%d' % uid, z3.IntSort(), z3.IntSort())
    ipi = z3.Function('pinv!%d' % uid, z3.IntSort(), z3.IntSort())
    n = zi(s.n)
    a, b = z3.Ints('a!%d b!%d' % (uid, uid))
    st.assume(z3.ForAll([a], z3.Implies(
        z3.And(0 <= a, a < n),
        z3.And(0 <= pi(a), pi(a) < n, ipi(pi(a)) == a)), patterns=[pi(a)]))
    st.assume(z3.ForAll([a], z3.Implies(
        z3.And(0 <= a, a < n),
        z3.And(0 <= ipi(a), ipi(a) < n, pi(ipi(a)) == a)),
        patterns=[ipi(a)]))

    def foldf(e, fd):
        if getattr(fd, 'commutative', True):
            return s.fold(e, fd)
        return None
    q = FSeq(s.n, lambda i: s.get(pi(zi(i))), None, 'sorted')
    q.fold_total = foldf
    x, y = q.get(a), q.get(b)

    def seqof(v):
        return as_seq(eng, st, v) if islistlike(st, v) else None
    sx, sy = seqof(x), seqof(y)
    if sx is not None:
        if not isinstance(sx, CSeq):
            raise Unsupported('sorting sequences of unknown length')
        le = lex(eng, st, 'LtE', list(sx.items), list(sy.items))
        nan = [t for t in sx.items]
    else:
        le = one(order(eng, st, 'LtE', x, y))
        nan = [x]
    nanf = bor(*[lift(t).nan for t in nan
                 if isinstance(lift(t), X)])
    cond = z3.And(0 <= a, a <= b, b < n)
    hyp = bz(le)
    if nanf is not False:
        # with NaNs present the order of the result is unspecified
        c = z3.Int('c!%d' % uid)
        allok = z3.ForAll([c], z3.Implies(
            z3.And(0 <= c, c < n),
            z3.Not(z3.substitute(bz(nanf), (a, c)))))
        st.assume(z3.Implies(allok, z3.ForAll(
            [a, b], z3.Implies(cond, hyp),
            patterns=[z3.MultiPattern(pi(a), pi(b))])))
    else:
        st.assume(z3.ForAll([a, b], z3.Implies(cond, hyp),
                            patterns=[z3.MultiPattern(pi(a), pi(b))]))
    # link of prefix folds at the end with the folds of the source
    q.sorted_of = s
    q.perm = (pi, ipi)
    yield st, eng_alloc(st, q)


@ext_fn('list.append')
def _append(eng, st, f, args, kw):
    from .eng import ListRec
    o = f.self
    if not isinstance(o, Ref):
        raise Unsupported('append to a stored list')
    mutable(st, o)
    rec = st.heap[o.id]
    v = args[0]
    if not isinstance(rec.seq, CSeq):
        v = freeze(st, v)
    st.heap[o.id] = ListRec(seq_append(rec.seq, v), rec.kind)
    yield st, None


@ext_fn('list.extend')
def _extend(eng, st, f, args, kw):
    from .eng import ListRec
    o = f.self
    if not isinstance(o, Ref):
        raise Unsupported('extend of a stored list')
    mutable(st, o)
    rec = st.heap[o.id]
    s = as_seq(eng, st, args[0], iterate=True)
    if s is None:
        raise Unsupported('extend')
    st.heap[o.id] = ListRec(seq_concat(rec.seq, s), rec.kind)
    yield st, None


@ext_fn('list.pop')
def _pop(eng, st, f, args, kw):
    from .eng import ListRec
    o = f.self
    if not isinstance(o, Ref):
        raise Unsupported('pop of a stored list')
    mutable(st, o)
    rec = st.heap[o.id]
    s = rec.seq
    i = args[0] if args else -1
    if isinstance(s, CSeq) and isinstance(i, int):
        if s.n == 0 or not -s.n <= i < s.n:
            yield st, Exc('IndexError', 'pop')
            return
        l = list(s.items)
        v = l.pop(i)
        st.heap[o.id] = ListRec(CSeq(l), rec.kind)
        yield st, v
        return
    if i == -1:
        for s1, b in eng.split(st, zi(s.n) > 0):
            if not b:
                yield s1, Exc('IndexError', 'pop')
                continue
            m = z3.simplify(zi(s.n) - 1)
            v = s.get(m)
            q = FSeq(m, s.get, None, 'pop')
            q.pop_of = s
            s1.heap[o.id] = ListRec(q, rec.kind)
            yield s1, v
        return
    raise Unsupported('pop')


@ext_fn('list.copy')
def _lcopy(eng, st, f, args, kw):
    yield st, eng_alloc(st, need_seq(eng, st, f.self))


@ext_fn('list.reverse')
def _lrev(eng, st, f, args, kw):
    from .eng import ListRec
    o = f.self
    mutable(st, o)
    st.heap[o.id] = ListRec(seq_reverse(st.heap[o.id].seq),
                            st.heap[o.id].kind)
    yield st, None


@ext_fn('list.insert')
def _linsert(eng, st, f, args, kw):
    from .eng import ListRec
    o = f.self
    mutable(st, o)
    s = st.heap[o.id].seq
    if isinstance(s, CSeq) and isinstance(args[0], int):
        l = list(s.items)
        l.insert(args[0], args[1])
        st.heap[o.id] = ListRec(CSeq(l), st.heap[o.id].kind)
        yield st, None
        return
    raise Unsupported('insert')


@ext_fn('list.sort')
def _lsort(eng, st, f, args, kw):
    for s, r in _sorted(eng, st, Ext('builtins.sorted'), [f.self], kw):
        if isinstance(r, Exc):
            yield s, r
        else:
            mutable(s, f.self)
            s.heap[f.self.id] = s.heap[r.id]
            yield s, None


@ext_fn('builtins.map')
def _map(eng, st, f, args, kw):
    fn = args[0]
    if len(args) != 2:
        raise Unsupported('map')
    seq = need_seq(eng, st, args[1])
    for s, q in seq_map(eng, st, seq, lambda s_, x: eng.call(fn, s_, [x])):
        yield s, (q if isinstance(q, Exc) else SeqV(q, 'iter'))


@ext_fn('builtins.filter')
def _filter(eng, st, f, args, kw):
    fn = args[0]
    seq = need_seq(eng, st, args[1])

    def elem(s1, x):
        for s2, c in (eng.call(fn, s1, [x]) if fn is not None
                      else [(s1, x)]):
            if isinstance(c, Exc):
                yield s2, c
                continue
            for s3, t in eng.truth(c, s2):
                for s4, b in eng.split(s3, t):
                    yield s4, (('some', x) if b else ('none',))
    if isinstance(seq, CSeq):
        acc = [(st, ())]
        for x in seq.items:
            nxt = []
            for s1, l in acc:
                if isinstance(l, Exc):
                    nxt.append((s1, l))
                    continue
                for s2, r in elem(s1, x):
                    nxt.append((s2, r if isinstance(r, Exc) else
                                l + ((x,) if r[0] == 'some' else ())))
            acc = nxt
        for s1, l in acc:
            yield s1, (l if isinstance(l, Exc) else SeqV(CSeq(l), 'iter'))
        return
    for s, q in filter_seq(eng, st, seq, elem):
        yield s, (q if isinstance(q, Exc) else SeqV(q, 'iter'))


@ext_fn('builtins.next')
def _next(eng, st, f, args, kw):
    s = need_seq(eng, st, args[0])
    if isinstance(args[0], SeqV):
        eng.notes.add('next() only supported on a fresh iterator')
        if isinstance(s, CSeq):
            if s.n == 0:
                if len(args) > 1:
                    yield st, args[1]
                else:
                    yield st, Exc('StopIteration', '')
            else:
                yield st, s.items[0]
            return
        for s1, b in eng.split(st, zi(s.n) > 0):
            if b:
                yield s1, s.get(0)
            elif len(args) > 1:
                yield s1, args[1]
            else:
                yield s1, Exc('StopIteration', '')
        return
    raise Unsupported('next')


@ext_fn('itertools.islice')
def _islice(eng, st, f, args, kw):
    s = need_seq(eng, st, args[0])
    a = list(args[1:])
    if len(a) == 1:
        sl = slice(None, a[0], None)
    else:
        sl = slice(*a)
    yield st, SeqV(as_seq(eng, st, do_slice(
        eng, st, SeqV(s, 'iter'), s, sl, True)), 'iter')


@ext_fn('itertools.chain')
def _chain_(eng, st, f, args, kw):
    q = CSeq(())
    for a in args:
        q = seq_concat(q, need_seq(eng, st, a))
    yield st, SeqV(q, 'iter')


@ext_fn('functools.reduce')
def _reduce(eng, st, f, args, kw):
    fn, v = args[0], args[1]
    s = need_seq(eng, st, v)
    if not isinstance(s, CSeq):
        raise Unsupported('reduce over unknown length')
    items = list(s.items)
    if len(args) > 2:
        items = [args[2]] + items
    if not items:
        yield st, Exc('TypeError', 'reduce of empty')
        return

    def go(st, acc, rest):
        if not rest:
            yield st, acc
            return
        for s1, r in eng.call(fn, st, [acc, rest[0]]):
            if isinstance(r, Exc):
                yield s1, r
            else:
                yield from go(s1, r, rest[1:])
    yield from go(st, items[0], items[1:])


def _mk_operator(opn):
    def g(eng, st, f, args, kw):
        yield from binop(eng, st, opn, args[0], args[1])
    return g


for _n, _o in (('or_', 'BitOr'), ('and_', 'BitAnd'), ('add', 'Add'),
               ('sub', 'Sub'), ('mul', 'Mult'), ('xor', 'BitXor'),
               ('truediv', 'Div')):
    _CALLS['operator.' + _n] = _mk_operator(_o)


@ext_fn('operator.neg')
def _opneg(eng, st, f, args, kw):
    yield from unop(eng, st, 'USub', args[0])


@ext_fn('dict.get')
def _dget(eng, st, f, args, kw):
    rec = st.heap[f.self.id]
    k = key_of(args[0])
    yield st, (rec.d[k] if k in rec.d else
               args[1] if len(args) > 1 else None)


@ext_fn('dict.items')
def _ditems(eng, st, f, args, kw):
    yield st, SeqV(CSeq(list(st.heap[f.self.id].d.items())), 'iter')


@ext_fn('dict.keys')
def _dkeys(eng, st, f, args, kw):
    yield st, SeqV(CSeq(list(st.heap[f.self.id].d.keys())), 'iter')


@ext_fn('dict.values')
def _dvalues(eng, st, f, args, kw):
    yield st, SeqV(CSeq(list(st.heap[f.self.id].d.values())), 'iter')


@ext_fn('cls:dict')
def _dict(eng, st, f, args, kw):
    from .eng import DictRec
    if not args:
        yield st, st.alloc(DictRec(dict(kw)))
        return
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[v.id], DictRec):
        d = dict(st.heap[v.id].d)
        d.update(kw)
        yield st, st.alloc(DictRec(d))
        return
    s = need_seq(eng, st, v)
    if isinstance(s, CSeq):
        yield st, st.alloc(DictRec({key_of(k): x for k, x in s.items}))
        return
    raise Unsupported('dict()')


@ext_fn('collections.defaultdict')
def _defaultdict(eng, st, f, args, kw):
    from .eng import DictRec
    yield st, st.alloc(DictRec({}, args[0] if args else None))


@ext_fn('argparse.Namespace')
def _namespace(eng, st, f, args, kw):
    from .eng import ObjRec
    yield st, st.alloc(ObjRec(Ext('argparse.Namespace'), dict(kw)))


@ext_fn('logging.logger.isEnabledFor')
def _enabled(eng, st, f, args, kw):
    yield st, eng.fresh('dbg', z3.BoolSort())


@ext_fn('str.join', 'str.format')
def _sjoin(eng, st, f, args, kw):
    yield st, Opaque('text')


@ext_fn('cls:set', 'cls:frozenset')
def _set(eng, st, f, args, kw):
    if not args:
        yield from make_set(eng, st, [])
        return
    s = as_seq(eng, st, args[0])
    if s is None:
        raise Unsupported('set of %r' % (args[0],))
    if isinstance(s, CSeq):
        yield from make_set(eng, st, list(s.items))
    else:
        yield from make_set_from_seq(eng, st, s)
