import z3
from pyvc.val import *
from pyvc.eng import State, Exc, ListRec, ObjRec, DictRec, AbsRec, Engine
from pyvc import lib, solve

G = 'plycutter.geometry.'
I2 = 'plycutter.geometry.impl2d.'


def q(name, st=None):
    """an arbitrary exact rational"""
    return Num('mpq', z3.Real(name))


def pt(name):
    return (q(name + '.x'), q(name + '.y'))


def fresh_state():
    st = State()
    st.fid = 'top'
    st.frames['top'] = {'__mod__': 'plycutter'}
    return st


def R(v):
    return toreal(v)


def collect(t, eng, func, st, args, kw=None, name=None, may_raise=()):
    return list(t.outcomes(eng, func, st, args, kw, name, may_raise))


def ground(st, terms):
    """the state with its universally quantified integer facts replaced by
    their instances at the given terms (a consequence of the state)"""
    out = []
    terms = [z3.IntVal(t) if isinstance(t, int) else t for t in terms]
    for p in flat(st.pc):
        if not z3.is_quantifier(p):
            if not solve.has_quant([p]):
                out.append(p)
            continue
        if not p.is_forall():
            continue
        k = p.num_vars()
        if any(p.var_sort(i) != z3.IntSort() for i in range(k)):
            continue
        if k == 1:
            for t in terms:
                out.append(z3.substitute_vars(p.body(), t))
        elif k == 2:
            for t in terms:
                for u in terms:
                    if not t.eq(u):
                        out.append(z3.substitute_vars(p.body(), u, t))
    s = st.copy()
    s.pc = tuple(z3.simplify(o) for o in out)
    return s


def flat(fs):
    for f in fs:
        if z3.is_and(f):
            yield from flat(f.children())
        else:
            yield f


def loop_vars(L, st):
    """variables a loop changes: assigned ones and lists it mutates"""
    out = [v for v in L.live if v not in L.targets]
    for v, x in L.entry.env.items():
        if isinstance(x, Ref) and x.id in L.mut and v not in out and \
                not v.startswith('__'):
            out.append(v)
    return out


def truth_split(eng, st, v):
    """(state, python bool) for the truth value of v"""
    for s, b in eng.truth(v, st):
        if isinstance(b, Exc):
            eng.oblige(s, 'the result has a truth value', False)
            continue
        yield from eng.split(s, b)
