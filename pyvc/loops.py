"""Loops of unknown length, cut by inductive invariants.

The modified variables (and mutated heap objects) are found by executing the
body; their shapes are inferred, the loop head is havocked to arbitrary values
of these shapes, and the candidate invariants stated by the contract are
checked for initiation and preservation; those that are not inductive are
dropped (Houdini).  The surviving ones become recorded obligations.
"""
import ast
import itertools
import z3
from .val import *
from .eng import ListRec, ObjRec, DictRec, AbsRec, Exc
from . import lib

_cnt = itertools.count()


# ------------------------------------------------------------------ shapes

KANY = KX(z3.BoolVal(False))

def shape(eng, st, v, top=False):
    if v is None:
        return ('none',)
    if isinstance(v, bool):
        return ('const', v)
    if isinstance(v, z3.BoolRef):
        return ('bool',)
    if isinstance(v, int):
        return ('const', v)
    if isinstance(v, float):
        import math
        if math.isnan(v) or math.isinf(v):
            return ('x', 'float')
        return ('num', 'float')
    if isinstance(v, str):
        return ('const', v)
    if isinstance(v, Num):
        return ('num', KANY if isinstance(v.kind, KX) else v.kind)
    if isinstance(v, X):
        return ('x', KANY if isinstance(v.kind, KX) else v.kind)
    if isinstance(v, Sym):
        return ('sym', v.sc)
    if isinstance(v, Opaque):
        return ('opaque',)
    if isinstance(v, tuple):
        return ('seq', 'tuple', [shape(eng, st, x) for x in v])
    if isinstance(v, SeqV):
        return seq_shape(eng, st, v.seq, v.kind)
    if isinstance(v, Ref):
        rec = st.heap[v.id]
        if isinstance(rec, ListRec):
            s = seq_shape(eng, st, rec.seq, rec.kind)
            if top:
                return ('ref', s)
            return s
        return ('sameref', v.id)
    if hasattr(v, 'h_shape'):
        return ('hv', v.h_shape(eng, st))
    if isinstance(v, Exc):
        return ('same', v)
    return ('same', v)


def seq_shape(eng, st, s, kind):
    if isinstance(s, CSeq):
        return ('seq', kind, [shape(eng, st, x) for x in s.items])
    el = s.get(z3.Int('shp!%d' % next(_cnt)))
    return ('fseq', kind, shape(eng, st, el))


def havoc_kind(eng, k, name):
    return KX(eng.fresh(name + '.ex', z3.BoolSort())) if isinstance(k, KX) \
        else k


KINDS = {'int', 'mpz', 'mpq', 'bool', 'ex'}


def kjoin(a, b):
    if a == b:
        return a
    if isinstance(a, KX) or isinstance(b, KX):
        return a if isinstance(a, KX) else b
    if not isinstance(a, str) or not isinstance(b, str):
        return 'any'
    if a in KINDS and b in KINDS:
        if {a, b} <= {'int', 'bool'}:
            return 'int'
        return 'ex'
    return 'any'


def const_shape(c):
    if isinstance(c, bool):
        return ('bool',)
    if isinstance(c, int):
        return ('num', 'int')
    if isinstance(c, str):
        return ('opaque',)
    return ('same', c)


def skind(a, b):
    return a if a == b else 'seq'


def join(a, b):
    """least common shape; None is bottom"""
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    if a[0] == 'alt' or b[0] == 'alt':
        la = a[1] if a[0] == 'alt' else [a]
        lb = b[1] if b[0] == 'alt' else [b]
        out = list(la)
        for y in lb:
            for i, x in enumerate(out):
                if compat(x, y):
                    out[i] = join(x, y)
                    break
            else:
                out.append(y)
        return ('alt', out) if len(out) > 1 else out[0]
    if not compat(a, b):
        return ('alt', [a, b])
    if a[0] == 'const':
        a2 = const_shape(a[1])
        b2 = const_shape(b[1]) if b[0] == 'const' else b
        return join(a2, b2)
    if b[0] == 'const':
        return join(a, const_shape(b[1]))
    if a[0] in ('num', 'x') and b[0] in ('num', 'x'):
        k = kjoin(a[1], b[1])
        return ('x' if 'x' in (a[0], b[0]) else 'num', k)
    if a[0] == 'ref' and b[0] == 'ref':
        return ('ref', join(a[1], b[1]))
    if a[0] == 'ref' or b[0] == 'ref':
        x, y = (a, b) if a[0] == 'ref' else (b, a)
        return join(x[1], y)
    if a[0] == 'seq' and b[0] == 'seq':
        k = skind(a[1], b[1])
        if len(a[2]) == len(b[2]):
            return ('seq', k, [join(x, y) for x, y in zip(a[2], b[2])])
        el = None
        for x in a[2] + b[2]:
            el = join(el, x)
        return ('fseq', k, el)
    if {a[0], b[0]} <= {'seq', 'fseq'}:
        k = skind(a[1], b[1])
        el = None
        for s in (a, b):
            if s[0] == 'fseq':
                el = join(el, s[2])
            else:
                for x in s[2]:
                    el = join(el, x)
        return ('fseq', k, el)
    if a[0] == 'hv' and b[0] == 'hv':
        return ('hv', a[1].join(b[1]))
    raise Unsupported('joining %r and %r' % (a, b))


def compat(a, b):
    """can be joined without an alternative"""
    if a == b:
        return True
    num = {'num', 'x'}

    def cls(s):
        if s[0] == 'const':
            if isinstance(s[1], bool):
                return 'b'
            if isinstance(s[1], int):
                return 'n'
            if isinstance(s[1], str):
                return 'o'
        if s[0] in num:
            return 'n'
        if s[0] == 'bool':
            return 'b'
        if s[0] == 'opaque':
            return 'o'
        if s[0] in ('seq', 'fseq', 'ref'):
            return 's'
        if s[0] == 'hv':
            return 'h' + s[1].name
        return repr(s)
    ca, cb = cls(a), cls(b)
    if ca != cb:
        return False
    if a[0] == 'seq' and b[0] == 'seq' and a[1] != 'list' and \
            len(a[2]) != len(b[2]) and b[1] != 'list' and \
            (not a[2] or not b[2]) and False:
        return False
    return True


def expand(s):
    """alternatives of a shape (only at top level and in short tuples)"""
    if s[0] == 'alt':
        return [y for x in s[1] for y in expand(x)]
    if s[0] == 'seq' and len(s[2]) <= 4:
        outs = [[]]
        for x in s[2]:
            outs = [o + [e] for o in outs for e in expand(x)]
        return [('seq', s[1], o) for o in outs]
    if s[0] == 'ref':
        return [('ref', e) for e in expand(s[1])]
    return [s]


def havoc(eng, st, s, name='h'):
    t = s[0]
    if t == 'none':
        return None
    if t == 'const':
        return s[1]
    if t == 'bool':
        return eng.fresh(name, z3.BoolSort())
    if t == 'num':
        k = s[1]
        sort = z3.IntSort() if k in ('int', 'mpz', 'bool') else z3.RealSort()
        return Num(havoc_kind(eng, k, name), eng.fresh(name, sort))
    if t == 'x':
        c = eng.fresh(name + '.c', z3.IntSort())
        return X(eng.fresh(name, z3.RealSort()), c == 1, c == 2, c == 3,
                 havoc_kind(eng, s[1], name))
    if t == 'sym':
        return Sym(s[1], eng.fresh(name, s[1].sort))
    if t == 'opaque':
        return Opaque('havoc')
    if t == 'seq':
        items = [havoc(eng, st, x, '%s.%d' % (name, i))
                 for i, x in enumerate(s[2])]
        if s[1] == 'tuple':
            return tuple(items)
        return SeqV(CSeq(items), s[1])
    if t == 'fseq':
        if s[2] is None:
            return SeqV(CSeq(()), s[1])
        return SeqV(havoc_seq(eng, st, s[2], name), s[1])
    if t == 'ref':
        v = havoc(eng, st, s[1], name)
        q = CSeq(v) if isinstance(v, tuple) else v.seq
        return st.alloc(ListRec(q, s[1][1]))
    if t == 'sameref':
        return Ref(s[1])
    if t == 'same':
        return s[1]
    if t == 'hv':
        return s[1].havoc(eng, st, name)
    raise Unsupported('havoc of %r' % (s,))


def havoc_seq(eng, st, el, name):
    if el[0] == 'alt':
        raise Unsupported('list of mixed elements')
    n = eng.fresh(name + '.n', z3.IntSort())
    st.assume(n >= 0)
    i = z3.Int('el!%d' % next(_cnt))
    eng.ictx.append(i)
    try:
        v = havoc(eng, st, el, name)
    finally:
        eng.ictx.pop()
    return FSeq(n, lambda k: vsubst(v, [(i, zi(k))]), None, name)


# ------------------------------------------------------------------ loop rule

def assigned_names(body):
    out = []

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef) and n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            if n.id not in out:
                out.append(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        for c in ast.iter_child_nodes(n):
            go(c)
    for b in body:
        go(b)
    return out


class Loop:
    pass


def cut_loop(eng, node, entry, seq):
    isfor = isinstance(node, ast.For)
    L = Loop()
    L.node, L.seq, L.isfor = node, seq, isfor
    fn = entry.env.get('__func__')
    L.func = fn.key if fn else '?'
    L.entry = entry
    names = assigned_names(node.body)
    if isfor:
        for nm in assigned_names([node.target]):
            if nm not in names:
                names.append(nm)
    L.targets = assigned_names([node.target]) if isfor else []
    if isinstance(seq, FSeq):
        L.n = zi(seq.n)
    else:
        L.n = None
    live = [v for v in names if v in entry.env]
    L.live = live
    # ---- shapes
    vsh = {}
    for v in live:
        vsh[v] = shape(eng, entry, entry.env[v], top=True)
    hsh = {}
    ysh = {}
    newvars = {}
    sm = eng.attr_hooks.get('shape_mode')
    eng.quiet += 1
    eng.attr_hooks['shape_mode'] = True
    try:
        for it in range(8):
            changed = False
            for head in heads(eng, L, entry, vsh, hsh, ysh):
                for s, ctl in run_body(eng, L, head.copy()):
                    if isinstance(ctl, Exc):
                        continue
                    if ctl is not None and ctl[0] == 'ret':
                        continue
                    brk = ctl is not None and ctl[0] == 'break'
                    for v in names:
                        if v in s.env and v not in live:
                            sh = shape(eng, s, s.env[v], top=True)
                            newvars[v] = join(newvars.get(v), sh)
                    if brk:
                        continue
                    for v in live:
                        if v not in s.env:
                            raise Unsupported('variable deleted in loop')
                        sh = shape(eng, s, s.env[v], top=True)
                        if sh[0] == 'sameref' and sh[1] not in entry.heap \
                                and sh[1] not in head.heap:
                            sh = fresh_obj_shape(eng, s, s.env[v])
                        j = join(vsh[v], sh)
                        if j != vsh[v]:
                            vsh[v] = j
                            changed = True
                    for r, rec in entry.heap.items():
                        new = s.heap.get(r)
                        if new is head.heap.get(r):
                            continue
                        j = heap_shape(eng, s, hsh.get(r), rec, new, head,
                                       entry)
                        if j != hsh.get(r):
                            hsh[r] = j
                            changed = True
                    for g, val in s.ghost.items():
                        if g == 'frozen':
                            continue
                        if isinstance(val, Seq):
                            if val is head.ghost.get(g):
                                continue
                            if g not in entry.ghost:
                                continue
                            sh = seq_shape(eng, s, val, 'iter')
                            base = ysh.get(g) or seq_shape(
                                eng, entry, entry.ghost[g], 'iter')
                            j = join(base, sh)
                            if j != ysh.get(g):
                                ysh[g] = j
                                changed = True
            if not changed:
                break
        else:
            raise Unsupported('shapes of loop variables do not settle')
    finally:
        eng.quiet -= 1
        eng.attr_hooks['shape_mode'] = sm
    L.vsh, L.hsh, L.ysh = vsh, hsh, ysh
    L.mut = sorted(hsh)
    shape_mode = bool(sm)
    # ---- invariants
    active = None
    if eng.candidates is not None and not shape_mode:
        L.k = 0
        k0 = z3.IntVal(0) if isfor else None
        cands = cand(eng, L, entry.copy(), k0)
        active = []
        for nm, f in cands:
            if eng.check(entry, f):
                active.append(nm)
        L.init = dict(cands)
        dropped = {nm for nm, f in cands} - set(active)
        # candidates that are stated only of lists of unknown length
        L.later = dict(missing(eng, L, entry, k0, vsh, hsh,
                               set(L.init)))
        for nm, (s, f) in L.later.items():
            if not eng.check(s, f):
                dropped.add(nm)
        memo = eng.attr_hooks.setdefault('houdini', {})
        key = (L.func, ast.dump(node)[:2000], len(vsh))
        if key in memo:
            dropped |= memo[key]
        eng.quiet += 1
        try:
            while True:
                again = False
                for head, k in with_invs(eng, L, entry, vsh, hsh, ysh,
                                         dropped):
                    for s, ctl in run_body(eng, L, head.copy(), k):
                        if isinstance(ctl, Exc):
                            continue
                        if ctl is not None and ctl[0] in ('ret', 'break'):
                            continue
                        k1 = None if k is None else z3.simplify(k + 1)
                        cs = [(nm, f) for nm, f in cand(eng, L, s, k1)
                              if nm not in dropped]
                        gone = L.assumed - {nm for nm, f in cs}
                        for nm, (s2, f) in missing(
                                eng, L, s, k1, vsh, hsh, None,
                                gone - dropped):
                            gone.discard(nm)
                            if not eng.check(s2, f):
                                gone.add(nm)
                        if gone - dropped:
                            dropped |= gone
                            again = True
                        goal = band(*[f for _, f in cs])
                        if goal is True or eng.check(s, goal):
                            continue
                        for nm, f in cs:
                            if f is True:
                                continue
                            if not eng.check(s, f):
                                dropped.add(nm)
                                again = True
                if not again:
                    break
        finally:
            eng.quiet -= 1
        memo[key] = set(dropped)
        eng.loop_log.append((L.func, node.lineno, sorted(dropped)))
        L.dropped = dropped
        if not eng.quiet:
            where = L.func
            for nm, f in cand(eng, L, entry.copy(), k0):
                if nm not in dropped and f is not True:
                    eng.oblige(entry.copy(), '%s: loop invariant "%s" '
                               'initially' % (short(where), nm), f, where)
            for nm, (s, f) in L.later.items():
                if nm not in dropped and f is not True:
                    eng.oblige(s.copy(), '%s: loop invariant "%s" '
                               'initially' % (short(where), nm), f, where)
    else:
        L.dropped = None
    # ---- final run
    exits = []
    for head, k in with_invs(eng, L, entry, vsh, hsh, ysh, L.dropped):
        if isfor:
            s_exit = head.copy()
            s_exit.assume(k == L.n)
            exits.append((s_exit, k))
        body_in = head.copy()
        for s, ctl in run_body(eng, L, body_in, k, exits=exits):
            if isinstance(ctl, Exc):
                yield s, ctl
                continue
            if ctl is not None and ctl[0] == 'ret':
                yield s, ctl
                continue
            if ctl is not None and ctl[0] == 'break':
                yield s, None
                continue
            alias_check(eng, L, head, s)
            if L.dropped is not None and not eng.quiet:
                k1 = None if k is None else z3.simplify(k + 1)
                cs = [(nm, f, s) for nm, f in cand(eng, L, s, k1)]
                gone = L.assumed - {c[0] for c in cs}
                for nm, (s2, f) in missing(eng, L, s, k1, vsh, hsh, None,
                                           gone):
                    cs.append((nm, f, s2))
                    gone.discard(nm)
                cs += [(nm, False, s) for nm in sorted(gone)]
                for nm, f, s2 in cs:
                    if nm not in L.dropped and f is not True:
                        eng.oblige(s2.copy(), '%s: loop invariant "%s" '
                                   'preserved' % (short(L.func), nm), f,
                                   L.func)
    for s_exit, k in exits:
        if eng.candidates is not None or True:
            if not eng.feasible(s_exit):
                continue
        for v, sh in newvars.items():
            if v in s_exit.env:
                continue
            alts = expand(sh)
            if isfor and v in L.targets:
                continue
            if len(alts) == 1 and alts[0][0] not in ('sameref', 'same'):
                s_exit.env[v] = havoc(eng, s_exit, alts[0], v)
        if isfor and L.targets and isinstance(node.target, ast.Name):
            # value of the loop variable after the loop
            try:
                s_exit.env[node.target.id] = seq.get(
                    z3.simplify(L.n - 1))
            except Unsupported:
                pass
        L.exit_hook = True
        h = eng.attr_hooks.get('loop_exit')
        if h is not None:
            h(eng, L, s_exit, k)
        yield from eng.block(node.orelse, s_exit)


def short(where):
    return where.split(':')[-1]


def fresh_obj_shape(eng, s, v):
    raise Unsupported('object created in a loop and carried over')


def alias_check(eng, L, head, s):
    mutated = [r for r in head.heap if r not in L.entry.heap and
               s.heap.get(r) is not head.heap[r]]
    if not mutated:
        return
    seen = {}
    for v in L.live:
        x = s.env.get(v)
        if isinstance(x, Ref):
            if x.id in seen:
                raise Unsupported('aliased lists in a loop')
            seen[x.id] = v


def cand(eng, L, st, k):
    eng.quiet += 1
    try:
        r = []
        for nm, f in eng.candidates(eng, L, st, k):
            if isinstance(f, list):
                f = band(*f)
            r.append((nm, f))
        return r
    finally:
        eng.quiet -= 1


def heap_shape(eng, s, cur, rec0, new, head, entry):
    if isinstance(new, ListRec):
        base = cur or seq_shape(eng, entry, rec0.seq, rec0.kind)
        return join(base, seq_shape(eng, s, new.seq, new.kind))
    if isinstance(new, ObjRec):
        d = dict(cur[1]) if cur else {}
        for f, v in new.fields.items():
            if f in rec0.fields and v is rec0.fields[f] and f not in d:
                continue
            b = d.get(f)
            if b is None and f in rec0.fields:
                b = shape(eng, entry, rec0.fields[f])
            d[f] = join(b, shape(eng, s, v))
        return ('obj', d)
    if isinstance(new, AbsRec):
        return ('abs', new.data.h_habs(cur[1] if cur else None, rec0.data))
    if isinstance(new, DictRec):
        ks = set(new.d)
        if ks != set(rec0.d):
            raise Unsupported('dict grows in a loop')
        d = dict(cur[1]) if cur else {}
        for k, v in new.d.items():
            if v is rec0.d[k] and k not in d:
                continue
            b = d.get(k) or shape(eng, entry, rec0.d[k])
            d[k] = join(b, shape(eng, s, v))
        return ('dict', d)
    raise Unsupported('mutation of %r in a loop' % type(new).__name__)


def missing(eng, L, s, k, vsh, hsh, have, want=None):
    """(name, (state, formula)) of the candidates not stated (not in have, or
    those wanted) because a list has a known length in state s: stated of
    the state with the list seen as one of unknown length"""
    if want is not None and not want:
        return []
    st = s.copy()
    done = False
    for v, sh in vsh.items():
        if v not in st.env:
            continue
        x = st.env[v]
        ref = isinstance(x, Ref)
        if ref and not isinstance(st.heap.get(x.id), ListRec):
            continue
        q = st.heap[x.id].seq if ref else x.seq if isinstance(x, SeqV) \
            else CSeq(x) if isinstance(x, tuple) else None
        alts = [a[1] if a[0] == 'ref' else a for a in expand(sh)]
        alts = [a for a in alts if a[0] == 'fseq' and a[2] is not None]
        if not isinstance(q, CSeq) or not alts:
            continue
        done = True
        y = SeqV(lengthened(eng, st, q, alts[0][2], v), alts[0][1])
        st.env[v] = st.alloc(ListRec(y.seq, y.kind)) if ref else y
    for r, sh in hsh.items():
        rec = st.heap.get(r)
        if not isinstance(rec, ListRec) or not isinstance(rec.seq, CSeq):
            continue
        alts = [a for a in expand(sh) if a[0] == 'fseq' and
                a[2] is not None]
        if alts:
            done = True
            st.heap[r] = ListRec(lengthened(eng, st, rec.seq, alts[0][2],
                                            'lst'), rec.kind)
    for g, sh in (L.ysh or {}).items():
        q = st.ghost.get(g)
        if isinstance(q, CSeq) and sh[0] == 'fseq' and sh[2] is not None:
            done = True
            st.ghost[g] = lengthened(eng, st, q, sh[2], 'yld')
    if not done:
        return []
    return [(nm, (st, f)) for nm, f in cand(eng, L, st, k)
            if (nm in want if want is not None else nm not in have)]


def lengthened(eng, st, q, el, name):
    """the sequence q as one of unknown length"""
    r = havoc_seq(eng, st, el, name)
    st.assume(zi(r.n) == q.n)

    def same(a, b):
        if isinstance(a, Num) and not isinstance(b, (Num, X)):
            b = lift(b) if isinstance(b, (int, float)) else b
        if isinstance(a, Num) and isinstance(b, Num):
            u, w = a.e, b.e
            if u.sort() == w.sort():
                st.assume(u == w)
            else:
                st.assume(*[x == y for x, y in [[
                    z3.ToReal(t) if z3.is_int(t) else t for t in (u, w)]]])
        elif isinstance(a, Sym) and isinstance(b, Sym) and \
                a.e.sort() == b.e.sort():
            st.assume(a.e == b.e)
        elif isinstance(a, tuple) and isinstance(b, tuple) and \
                len(a) == len(b):
            for u, w in zip(a, b):
                same(u, w)
    for i, x in enumerate(q.items):
        same(r.get(i), x)
    return r


def heads(eng, L, entry, vsh, hsh, ysh):
    """havocked states at the loop head (one per combination of shapes)"""
    vs = sorted(vsh)
    combos = [[]]
    for v in vs:
        alts = expand(vsh[v])
        combos = [c + [(v, a)] for c in combos for a in alts]
        if len(combos) > 200:
            raise Unsupported('too many loop shapes')
    for c in combos:
        st = entry.copy()
        for r, sh in hsh.items():
            rec = entry.heap[r]
            if sh[0] == 'obj':
                d = dict(rec.fields)
                for f, fs in sh[1].items():
                    al = expand(fs)
                    if len(al) != 1:
                        raise Unsupported('object field of several shapes')
                    d[f] = havoc(eng, st, al[0], f)
                st.heap[r] = ObjRec(rec.cls, d)
            elif sh[0] == 'abs':
                st.heap[r] = AbsRec(rec.typ, sh[1].havoc(eng, st, 'abs'))
            elif sh[0] == 'dict':
                d = dict(rec.d)
                for f, fs in sh[1].items():
                    al = expand(fs)
                    if len(al) != 1:
                        raise Unsupported('dict value of several shapes')
                    d[f] = havoc(eng, st, al[0], str(f))
                st.heap[r] = DictRec(d, rec.default)
            else:
                v = havoc(eng, st, sh, 'lst')
                q = CSeq(v) if isinstance(v, tuple) else v.seq
                st.heap[r] = ListRec(q, rec.kind)
        for v, a in c:
            st.env[v] = havoc(eng, st, a, v)
        for g, sh in ysh.items():
            v = havoc(eng, st, sh, 'yld')
            st.ghost[g] = CSeq(v) if isinstance(v, tuple) else v.seq
        yield st


def with_invs(eng, L, entry, vsh, hsh, ysh, dropped):
    for head in heads(eng, L, entry, vsh, hsh, ysh):
        k = None
        if L.isfor:
            k = eng.fresh('k', z3.IntSort())
            head.assume(k >= 0, k <= L.n)
        if dropped is not None:
            L.assumed = set()
            for nm, f in cand(eng, L, head, k):
                if nm not in L.init and nm not in L.later:
                    dropped.add(nm)     # not shown to hold initially
                if nm not in dropped:
                    head.assume(f)
                    L.assumed.add(nm)
        if not eng.feasible(head):
            continue
        yield head, k


def run_body(eng, L, st, k=None, exits=None):
    node = L.node
    if L.isfor:
        if k is None:
            k = eng.fresh('k', z3.IntSort())
            st.assume(k >= 0)
        st.assume(k < L.n)
        if not eng.feasible(st):
            return
        for fd in [g for f in eng.folds for g in
                   [f] + list(getattr(f, 'source', None) or [])]:
            try:
                st.assume(L.seq.unfold(eng, fd, k))
            except (Unsupported, TypeError, AttributeError, IndexError,
                    z3.Z3Exception):
                pass
        for h in eng.attr_hooks.get('unfold', ()):
            st.assume(*h(eng, L, k))
        st.ghost['loopk'] = k
        for s, e in eng.assign(node.target, L.seq.get(k), st):
            if e is not None:
                yield s, e
                continue
            yield from body_out(eng, node, s)
    else:
        for s, c in eng.ev(node.test, st):
            if isinstance(c, Exc):
                yield s, c
                continue
            for s1, t in eng.truth(c, s):
                if isinstance(t, Exc):
                    yield s1, t
                    continue
                for s2, b in eng.split(s1, t):
                    if b:
                        yield from body_out(eng, node, s2)
                    elif exits is not None:
                        exits.append((s2, None))


def body_out(eng, node, s):
    for s1, ctl in eng.block(node.body, s):
        if ctl is not None and not isinstance(ctl, Exc) and \
                ctl[0] == 'cont':
            ctl = None
        yield s1, ctl
