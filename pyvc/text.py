"""Symbolic text: z3 strings (used only where a property is about text)."""
import ast
import z3
from . import lib as L
from .val import *
from .eng import Exc

S_ = z3.StringSort()
TEXT = Schema('text', S_)


def term(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, Sym) and v.sc is TEXT:
        return v.e
    return None


def text(e):
    return Sym(TEXT, e)


def lt(eng, st, a, b):
    return term(a) < term(b)


def add(eng, st, a, args, kw):
    t = term(args[0])
    if t is None:
        yield st, Exc('TypeError', 'text + other')
        return
    yield st, text(z3.Concat(a.e, t))


TEXT.ops.update(lt=lt, add=add, eqstr=lambda eng, st, a, b: term(a) == term(b))


def join(eng, st, sep, seq):
    q = L.as_seq(eng, st, seq, iterate=True)
    if not isinstance(q, CSeq):
        raise Unsupported('join of a sequence of unknown length')
    ts = [term(v) for v in q.items]
    if any(t is None for t in ts):
        yield st, Exc('TypeError', 'join of non-text')
        return
    if not ts:
        yield st, ''
        return
    out = ts[0]
    for t in ts[1:]:
        out = z3.Concat(out, term(sep), t)
    yield st, text(out)


def strattr(eng, st, o, name):
    if name == 'join':
        yield st, PyFn(lambda e, s, a, k: join(e, s, o, a[0]), 'join')
        return
    if name == 'format':
        def f(e, s, a, k):
            parts = o.split('{}')
            if k or len(parts) != len(a) + 1 or '{' in ''.join(parts):
                raise Unsupported('text format')
            yield s, cat(parts, a)
        yield st, PyFn(f, 'format')
        return
    raise Unsupported('text method ' + name)


def cat(parts, vals):
    out = z3.StringVal(parts[0])
    for p, v in zip(parts[1:], vals):
        t = term(v)
        if t is None:
            return Opaque('text')
        out = z3.Concat(out, t, z3.StringVal(p))
    return text(z3.simplify(out))


def strmod(eng, st, a, b):
    q = (b,) if not isinstance(b, tuple) else b
    parts = a.split('%s')
    if '%' in ''.join(parts) or len(parts) != len(q) + 1:
        return Opaque('text')
    return cat(parts, q)


def fstring(eng, st, n):
    es = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
    plain = all(not isinstance(v, ast.FormattedValue) or
                (v.conversion == -1 and v.format_spec is None)
                for v in n.values)
    for s, vs in eng.evs(es, st):
        if isinstance(vs, Exc):
            yield s, vs
            continue
        if not plain:
            yield s, Opaque('fstring')
            continue
        parts, cur = [], ''
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(cur)
                cur = ''
            else:
                cur += v.value
        parts.append(cur)
        yield s, cat(parts, vs)


def install(eng):
    eng.attr_hooks.update(strattr=strattr, strmod=strmod, fstring=fstring)
