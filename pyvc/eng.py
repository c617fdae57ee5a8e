"""Symbolic executor / verification-condition generator for Python source.

Works on the abstract syntax trees of /repo's current files.  Functions that
have a contract in the running target are called by contract; every other
function of the repository is executed by its body.  Loops over sequences of
unknown length and while loops are cut by inductive invariants: the candidate
invariants stated by the contract are checked for initiation and preservation
and the ones that are not inductive are not used.
"""
import ast
import itertools
import os
import z3
from .val import *
from . import solve

_cnt = itertools.count()


class Frame(dict):
    pass


class ListRec:
    __slots__ = ('seq', 'kind')

    def __init__(self, seq, kind='list'):
        self.seq, self.kind = seq, kind


class ObjRec:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def with_(self, f, v):
        d = dict(self.fields)
        d[f] = v
        return ObjRec(self.cls, d)


class DictRec:
    """dict with concrete (hashable) keys"""
    __slots__ = ('d', 'default')

    def __init__(self, d, default=None):
        self.d = d
        self.default = default


class AbsRec:
    """mutable library object described by a contract: immutable payload"""
    __slots__ = ('typ', 'data')

    def __init__(self, typ, data):
        self.typ, self.data = typ, data


class State:
    __slots__ = ('frames', 'heap', 'pc', 'ghost', 'fid')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.ghost = {}
        self.fid = 0

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.fid = self.fid
        return s

    @property
    def env(self):
        return self.frames[self.fid]

    def assume(self, *fs):
        out = list(self.pc)
        for f in fs:
            if isinstance(f, bool):
                if not f:
                    out.append(z3.BoolVal(False))
                continue
            out.append(f)
        self.pc = tuple(out)
        return self

    def alloc(self, rec):
        r = Ref(next(_cnt))
        self.heap[r.id] = rec
        return r


class Obligation:
    def __init__(self, name, ok, status, backend, secs, model=None, where='',
                 detail=''):
        self.name, self.ok, self.status = name, ok, status
        self.backend, self.secs, self.model = backend, secs, model
        self.where, self.detail = where, detail


class Engine:
    MAX_INLINE = 60
    MAX_PATHS = 4000

    def __init__(self, repo='/repo', contracts=None, schemas=None,
                 candidates=None, folds=(), lib=None):
        self.repo = repo
        self.mods = {}
        self.contracts = contracts or {}
        self.candidates = candidates
        self.folds = list(folds)
        self.axioms = []
        self.obls = []
        self.quiet = 0
        self.ictx = []
        self.depth = 0
        self.npaths = 0
        self.inlined = set()
        self.called_contracts = set()
        self.ext_used = set()
        self.notes = set()
        self.feas_cache = {}
        from . import lib as _lib
        self.lib = _lib
        self.extra_ext = lib or {}
        self.loop_depth = 0
        self.nloops = 0
        self.attr_hooks = {}
        self.on_model = None
        self.loop_log = []
        self.floors = {}
        self.yield_hook = None
        self.timeout = 10000

    # ------------------------------------------------------------ basics
    def axiom(self, f):
        self.axioms.append(f)

    def fresh(self, name, sort):
        nm = '%s!%d' % (name, next(_cnt))
        if self.ictx:
            f = z3.Function(nm, *([x.sort() for x in self.ictx] + [sort]))
            return f(*self.ictx)
        return z3.Const(nm, sort)

    feas_rlimit = 120000
    feas_qf = False     # look for dead paths without quantified facts

    def feasible(self, st, extra=None):
        pc = list(st.pc)
        if extra is not None:
            if isinstance(extra, bool):
                if not extra:
                    return False
            else:
                pc.append(extra)
        for p in pc:
            if z3.is_false(p):
                return False
        if self.feas_qf:
            pc = [p for p in pc if not solve.has_quant([p])]
        return solve.feasible(self.axioms, pc, rlimit=self.feas_rlimit)

    def oblige(self, st, name, goal, where='', detail=''):
        """Goal must hold in st. Recorded and discharged (unless in a quiet
        run); afterwards it is assumed."""
        if isinstance(goal, list):
            goal = band(*goal)
        if not self.quiet:
            r = solve.prove(self.axioms, st.pc, bz(goal), self.timeout)
            self.obls.append(Obligation(name, r.ok, r.status, r.backend,
                                        r.secs, r.model, where, detail))
            if not r.ok and r.model is not None and self.on_model:
                self.on_model(name, r.model)
        st.assume(goal)

    def check(self, st, goal):
        """silent check"""
        return solve.prove(self.axioms, st.pc, bz(goal), 3000,
                           single=True).ok

    def split(self, st, c):
        """yield (state, bool) for the feasible truth values of c"""
        if isinstance(c, bool):
            yield st, c
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            yield st, True
            return
        if z3.is_false(c):
            yield st, False
            return
        u = c.arg(0) if z3.is_not(c) else c
        if self.feas_qf and z3.is_const(u) and \
                u.decl().name().startswith('any!'):
            # an arbitrary truth value
            n = z3.Not(u)
            t = not any(p.eq(n) for p in st.pc)
            f = not any(p.eq(u) for p in st.pc)
            if u is not c:
                t, f = f, t
        else:
            t = self.feasible(st, c)
            f = self.feasible(st, z3.Not(c))
        if t and f:
            self.npaths += 1
            if self.npaths > self.MAX_PATHS:
                raise Unsupported('too many paths')
            s2 = st.copy()
            st.assume(c)
            yield st, True
            s2.assume(z3.Not(c))
            yield s2, False
        elif t:
            st.assume(c)
            yield st, True
        elif f:
            st.assume(z3.Not(c))
            yield st, False

    # ------------------------------------------------------------ modules
    def modfile(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def mod(self, name):
        if name not in self.mods:
            fn = self.modfile(name)
            with open(fn) as f:
                tree = ast.parse(f.read(), fn)
            self.mods[name] = self._index(name, tree)
        return self.mods[name]

    def _index(self, name, tree):
        g = {}

        def visit(body):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    g[n.name] = ('func', n)
                elif isinstance(n, ast.ClassDef):
                    g[n.name] = ('class', n)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            g[a.asname] = ('mod', a.name)
                        else:
                            top = a.name.split('.')[0]
                            g[top] = ('mod', top)
                elif isinstance(n, ast.ImportFrom):
                    base = self._resolve_from(name, n)
                    for a in n.names:
                        g[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            g[t.id] = ('expr', n.value)
                        elif isinstance(t, ast.Tuple):
                            for j, el in enumerate(t.elts):
                                if isinstance(el, ast.Name):
                                    g[el.id] = ('expr', ast.Subscript(
                                        n.value, ast.Constant(j),
                                        ast.Load()))
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    if isinstance(n.target, ast.Name):
                        g[n.target.id] = ('expr', n.value)
                elif isinstance(n, (ast.If, ast.Try)):
                    visit(n.body)
                    for h in getattr(n, 'handlers', []):
                        pass
                    visit(getattr(n, 'orelse', []))
        visit(tree.body)
        return g

    def _is_pkg(self, name):
        return os.path.isdir(os.path.join(self.repo, *name.split('.')))

    def _resolve_from(self, name, n):
        if n.level == 0:
            return n.module
        parts = name.split('.')
        if not self._is_pkg(name):
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def is_repo_mod(self, name):
        return name.split('.')[0] == 'plycutter' and (
            os.path.exists(self.modfile(name)))

    def modval(self, name):
        if self.is_repo_mod(name):
            return Module(name)
        return self.lib.ext(name)

    def glob(self, mod, name, st):
        """value of module-level name, or None"""
        gf = st.frames.get('G:' + mod)
        if gf is not None and name in gf:
            return gf[name]
        g = self.mod(mod)
        if name not in g:
            return None
        e = g[name]
        if e[0] == 'func':
            return UserFunc(mod, e[1], name)
        if e[0] == 'class':
            return UserClass(mod, e[1], name)
        if e[0] == 'mod':
            return self.modval(e[1])
        if e[0] == 'from':
            return self.from_import(e[1], e[2], st)
        if e[0] == 'expr':
            key = mod + ':' + name
            if key in self.extra_ext:
                return self.extra_ext[key]
            r = self.lib.special_global(self, mod, name, e[1])
            if r is not None:
                return r
            tmp = State()
            tmp.fid = 'G'
            tmp.frames['G'] = {'__mod__': mod}
            outs = list(self.ev(e[1], tmp))
            if len(outs) != 1 or isinstance(outs[0][1], Exc):
                raise Unsupported('module global %s.%s' % (mod, name))
            v = outs[0][1]
            if isinstance(v, Ref):
                # re-evaluate into the current heap; module-level mutable
                st.frames.setdefault('G:' + mod, {})
                st.heap.update(tmp.heap)
                st.frames['G:' + mod][name] = v
            return v

    def from_import(self, base, name, st):
        if self.is_repo_mod(base):
            if self.is_repo_mod(base + '.' + name):
                return Module(base + '.' + name)
            v = self.glob(base, name, st)
            if v is None:
                raise Unsupported('cannot import %s from %s' % (name, base))
            return v
        return self.lib.ext(base + '.' + name)

    def lookup_func(self, key):
        """'mod:A.b' -> UserFunc"""
        mod, qual = key.split(':')
        g = self.mod(mod)
        parts = qual.split('.')
        if parts[0] not in g:
            raise Unsupported('%s is gone' % key)
        kind, node = g[parts[0]][:2]
        cls = None
        for i, p in enumerate(parts[1:], 1):
            cls = UserClass(mod, node, '.'.join(parts[:i]))
            nxt = None
            for n in node.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                        n.name == p:
                    nxt = n
            if nxt is None:
                raise Unsupported('%s is gone' % key)
            node = nxt
        if isinstance(node, ast.ClassDef):
            return UserClass(mod, node, qual)
        return UserFunc(mod, node, qual, cls=cls)

    def class_bases(self, c, st):
        out = []
        for b in c.node.bases:
            try:
                tmp = State()
                tmp.fid = 'G'
                tmp.frames['G'] = {'__mod__': c.mod}
                for _, v in self.ev(b, tmp):
                    out.append(v)
            except Unsupported:
                pass
        return out

    def class_attr(self, c, name, st):
        """find method/attribute in class or its repo bases"""
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return UserFunc(c.mod, n, c.qual + '.' + name, cls=c)
            if isinstance(n, ast.ClassDef) and n.name == name:
                return UserClass(c.mod, n, c.qual + '.' + name)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return ('expr', c.mod, n.value)
        for b in self.class_bases(c, st):
            if isinstance(b, UserClass):
                r = self.class_attr(b, name, st)
                if r is not None:
                    return r
        return None

    # ------------------------------------------------------------ calls
    def run(self, func, st, args, kw=None):
        """Execute function body. yields (st, value|Exc)"""
        yield from self.call_body(func, st, list(args), kw or {})

    def bind_args(self, func, st, args, kw, fr):
        a = func.node.args if not isinstance(func.node, ast.Lambda) \
            else func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            return Exc('TypeError', 'too many arguments')
        for n, v in zip(names, args):
            fr[n] = v
        if a.vararg:
            fr[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        konly = [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k in names or k in konly:
                fr[k] = kw.pop(k)
        if a.kwarg:
            fr[a.kwarg.arg] = st.alloc(DictRec(dict(kw)))
        elif kw:
            return Exc('TypeError', 'unexpected keyword %s' % list(kw))
        dn = names[len(names) - len(a.defaults):]
        todo = [(n, d) for n, d in zip(dn, a.defaults) if n not in fr]
        todo += [(n, d) for n, d in zip(konly, a.kw_defaults)
                 if d is not None and n not in fr]
        for n, d in todo:
            tmp = st.copy()
            tmp.fid = 'G%d' % next(_cnt)
            tmp.frames[tmp.fid] = {'__mod__': func.mod}
            outs = list(self.ev(d, tmp))
            if len(outs) != 1:
                raise Unsupported('default argument')
            v = outs[0][1]
            if isinstance(v, Ref):
                st.heap[v.id] = outs[0][0].heap[v.id]
            fr[n] = v
        for n in names + konly:
            if n not in fr:
                return Exc('TypeError', 'missing argument %s of %s' % (
                    n, func.qual))
        return None

    def call_body(self, func, st, args, kw):
        if self.depth > self.MAX_INLINE:
            raise Unsupported('inlining too deep at %s' % func.key)
        fid = next(_cnt)
        fr = {'__mod__': func.mod, '__func__': func}
        if func.frame is not None:
            fr['__parent__'] = func.frame
        ex = self.bind_args(func, st, args, kw, fr)
        if ex is not None:
            yield st, ex
            return
        caller = st.fid
        st.frames[fid] = fr
        st.fid = fid
        self.depth += 1
        try:
            if isinstance(func.node, ast.Lambda):
                for s, v in self.ev(func.node.body, st):
                    s.fid = caller
                    yield s, v
                return
            isgen = is_generator(func.node)
            gkey = None
            if isgen:
                gkey = 'yield%d' % fid
                fr['__yield__'] = gkey
                st.ghost[gkey] = CSeq(())
            globs = set()
            for n in ast.walk(func.node):
                if isinstance(n, ast.Global):
                    globs |= set(n.names)
            fr['__globals__'] = globs
            for s, ctl in self.block(func.node.body, st):
                s.fid = caller
                if isinstance(ctl, Exc):
                    yield s, ctl
                elif ctl is None or ctl[0] == 'ret':
                    v = None if ctl is None else ctl[1]
                    if isgen:
                        v = SeqV(s.ghost[gkey], 'iter')
                    yield s, v
                else:
                    raise Unsupported('control flow escapes function')
        finally:
            self.depth -= 1

    def call(self, f, st, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            yield from self.call(f.func, st, [f.self] + list(args), kw)
        elif isinstance(f, UserFunc):
            c = self.contracts.get(f.key)
            if c is not None:
                self.called_contracts.add(f.key)
                yield from c(self, st, f, list(args), kw)
            else:
                self.inlined.add(f.key)
                yield from self.call_body(f, st, list(args), kw)
        elif isinstance(f, UserClass):
            yield from self.instantiate(f, st, list(args), kw)
        elif isinstance(f, PyFn):
            yield from f.f(self, st, list(args), kw)
        elif isinstance(f, (Ext, Cls)):
            yield from self.lib.call_ext(self, st, f, list(args), kw)
        elif isinstance(f, Opaque):
            raise Unsupported('call of %r' % f)
        elif isinstance(f, self.lib.HV):
            yield from f.h_call(self, st, list(args), kw)
        else:
            raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, st, args, kw):
        ct = self.contracts.get(c.key)
        if ct is not None:
            self.called_contracts.add(c.key)
            yield from ct(self, st, c, args, kw)
            return
        init = self.class_attr(c, '__init__', st)
        base_names = [getattr(b, 'name', '') for b in self.class_bases(c, st)
                      if not isinstance(b, UserClass)]
        if init is None and any('PRecord' in b for b in base_names):
            yield st, st.alloc(ObjRec(c, dict(kw)))
            return
        r = st.alloc(ObjRec(c, {}))
        if init is None:
            if args or kw:
                raise Unsupported('constructor of %s' % c.key)
            yield st, r
            return
        for s, v in self.call(Bound(init, r), st, args, kw):
            yield s, (v if isinstance(v, Exc) else r)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """yield (state, control); control: None, ('ret', v), ('break',),
        ('cont',), Exc"""
        if not stmts:
            yield st, None
            return
        for s, c in self.stmt(stmts[0], st):
            if c is None:
                yield from self.block(stmts[1:], s)
            else:
                yield s, c

    def stmt(self, n, st):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s line %s' % (
                type(n).__name__, getattr(n, 'lineno', '?')))
        yield from m(n, st)

    def st_Pass(self, n, st):
        yield st, None

    def st_Global(self, n, st):
        yield st, None

    def st_Nonlocal(self, n, st):
        raise Unsupported('nonlocal')

    def st_Import(self, n, st):
        for a in n.names:
            if a.asname:
                st.env[a.asname] = self.modval(a.name)
            else:
                top = a.name.split('.')[0]
                st.env[top] = self.modval(top)
        yield st, None

    def st_ImportFrom(self, n, st):
        base = self._resolve_from(st.env['__mod__'], n)
        for a in n.names:
            st.env[a.asname or a.name] = self.from_import(base, a.name, st)
        yield st, None

    def st_FunctionDef(self, n, st):
        deco = []
        for d in n.decorator_list:
            deco.append(d)
        f = st.env.get('__func__')
        q = (f.qual + '.' if f else '') + n.name
        v = UserFunc(st.env['__mod__'], n, q, frame=st.fid)
        st.env[n.name] = v
        yield st, None

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            yield st, None
            return
        for s, v in self.ev(n.value, st):
            yield s, (v if isinstance(v, Exc) else None)

    def st_Return(self, n, st):
        if n.value is None:
            yield st, ('ret', None)
            return
        for s, v in self.ev(n.value, st):
            yield s, (v if isinstance(v, Exc) else ('ret', v))

    def st_Assign(self, n, st):
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            states = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, e in states:
                    if e is not None:
                        nxt.append((s1, e))
                    else:
                        nxt.extend(self.assign(t, v, s1))
                states = nxt
            for s1, e in states:
                yield s1, e

    def st_AnnAssign(self, n, st):
        if n.value is None:
            yield st, None
            return
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s, v
            else:
                yield from self.assign(n.target, v, s)

    def st_AugAssign(self, n, st):
        load = ast.copy_location(to_load(n.target), n)
        for s, cur in self.ev(load, st):
            if isinstance(cur, Exc):
                yield s, cur
                continue
            for s2, v in self.ev(n.value, s):
                if isinstance(v, Exc):
                    yield s2, v
                    continue
                for s3, r in self.lib.binop(self, s2, type(n.op).__name__,
                                            cur, v, inplace=True):
                    if isinstance(r, Exc):
                        yield s3, r
                    else:
                        yield from self.assign(n.target, r, s3)

    def assign(self, t, v, st):
        """yield (st, None|Exc)"""
        if isinstance(t, ast.Name):
            if t.id in st.env.get('__globals__', ()):
                st.frames.setdefault('G:' + st.env['__mod__'], {})[t.id] = v
            else:
                st.env[t.id] = v
            yield st, None
        elif isinstance(t, (ast.Tuple, ast.List)):
            for s, items in self.unpack(v, len(t.elts), st):
                if isinstance(items, Exc):
                    yield s, items
                    continue
                states = [(s, None)]
                for el, iv in zip(t.elts, items):
                    nxt = []
                    for s1, e in states:
                        if e is not None:
                            nxt.append((s1, e))
                        else:
                            nxt.extend(self.assign(el, iv, s1))
                    states = nxt
                yield from states
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st):
                if isinstance(o, Exc):
                    yield s, o
                    continue
                if isinstance(o, Ref) and isinstance(s.heap[o.id], ObjRec):
                    s.heap[o.id] = s.heap[o.id].with_(t.attr, v)
                    yield s, None
                else:
                    raise Unsupported('attribute assignment on %r' % (o,))
        elif isinstance(t, ast.Subscript):
            for s, o in self.ev(t.value, st):
                if isinstance(o, Exc):
                    yield s, o
                    continue
                for s2, i in self.ev_index(t.slice, s):
                    if isinstance(i, Exc):
                        yield s2, i
                        continue
                    for s3, e in self.lib.setitem(self, s2, o, i, v):
                        yield s3, e
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred assignment')
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, k, st):
        seq = self.lib.as_seq(self, st, v)
        if seq is None:
            raise Unsupported('unpacking %r' % (v,))
        n = seq.n
        if isinstance(n, int):
            if n != k:
                yield st, Exc('ValueError', 'unpack %d into %d' % (n, k))
            else:
                yield st, [seq.get(i) for i in range(k)]
            return
        for s, b in self.split(st, n == k):
            if b:
                yield s, [seq.get(i) for i in range(k)]
            else:
                yield s, Exc('ValueError', 'unpack')

    def st_If(self, n, st):
        for s, c in self.ev(n.test, st):
            if isinstance(c, Exc):
                yield s, c
                continue
            for s1, t in self.truth(c, s):
                if isinstance(t, Exc):
                    yield s1, t
                    continue
                for s2, b in self.split(s1, t):
                    yield from self.block(n.body if b else n.orelse, s2)

    def st_Assert(self, n, st):
        for s, c in self.ev(n.test, st):
            if isinstance(c, Exc):
                yield s, c
                continue
            for s1, t in self.truth(c, s):
                for s2, b in self.split(s1, t):
                    if b:
                        yield s2, None
                    else:
                        yield s2, Exc('AssertionError', 'line %d' % n.lineno)

    def st_Raise(self, n, st):
        if n.exc is None:
            e = st.env.get('__exc__')
            yield st, (e if isinstance(e, Exc) else
                       Exc('RuntimeError', 'no active exception'))
            return
        name = 'Exception'
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
            v = st.env.get(name)
            if isinstance(v, self.lib.ExcV):
                yield st, v.exc
                return
        yield st, Exc(name, 'raise line %d' % n.lineno)

    def st_Delete(self, n, st):
        states = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, e in states:
                if e is not None:
                    nxt.append((s, e))
                elif isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    for s1, o in self.ev(t.value, s):
                        if isinstance(o, Exc):
                            nxt.append((s1, o))
                            continue
                        for s2, i in self.ev_index(t.slice, s1):
                            nxt.extend(self.lib.delitem(self, s2, o, i))
                else:
                    raise Unsupported('del')
            states = nxt
        yield from states

    def st_Try(self, n, st):
        outs = self.block(n.body, st)
        for s, c in outs:
            if c is None and n.orelse:
                res = self.block(n.orelse, s)
            elif isinstance(c, Exc) and n.handlers:
                res = self._handlers(n, s, c)
            else:
                res = [(s, c)]
            for s1, c1 in res:
                if n.finalbody:
                    for s2, c2 in self.block(n.finalbody, s1):
                        yield s2, (c2 if c2 is not None else c1)
                else:
                    yield s1, c1

    def _handlers(self, n, s, exc):
        """the name 'Any' stands for an arbitrary ordinary exception: a
        handler for a particular class may or may not catch it"""
        for h in n.handlers:
            if h.type is None:
                match = True
            else:
                names = [h.type] if not isinstance(h.type, ast.Tuple) \
                    else h.type.elts
                ids = [getattr(x, 'id', getattr(x, 'attr', '?'))
                       for x in names]
                match = any(exc_match(exc.name, x) for x in ids)
                if exc.name == 'Any' and not match:
                    match = None
            if match is False:
                continue
            s1 = s.copy() if match is None else s
            if h.name:
                s1.env[h.name] = self.lib.ExcV(exc)
            fid, old = s1.fid, s1.env.get('__exc__')
            s1.env['__exc__'] = exc
            for s2, c in self.block(h.body, s1):
                s2.frames[fid]['__exc__'] = old
                yield s2, c
            if match:
                return
        yield s, exc

    def st_With(self, n, st):
        for it in n.items:
            for s, v in self.ev(it.context_expr, st):
                if isinstance(v, Exc):
                    yield s, v
                    return
                st = s
                break
            if it.optional_vars is not None:
                for s, e in self.assign(it.optional_vars, v, st):
                    st = s
        self.notes.add('with-statement context managers are treated as '
                       'having no effect')
        yield from self.block(n.body, st)

    def st_Break(self, n, st):
        yield st, ('break',)

    def st_Continue(self, n, st):
        yield st, ('cont',)

    # ---- loops
    def st_For(self, n, st):
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Exc):
                yield s, it
                continue
            seq = self.lib.as_seq(self, s, it, iterate=True)
            if seq is None:
                raise Unsupported('iteration over %r line %d' % (it,
                                                                n.lineno))
            if isinstance(seq, CSeq):
                yield from self.unroll(n, seq, 0, s)
            else:
                yield from self.cut_loop(n, s, seq)

    def unroll(self, n, seq, i, st):
        if i >= seq.n:
            yield from self.block(n.orelse, st)
            return
        for s, e in self.assign(n.target, seq.items[i], st):
            if e is not None:
                yield s, e
                continue
            for s1, c in self.block(n.body, s):
                if c is None or (not isinstance(c, Exc) and c[0] == 'cont'):
                    yield from self.unroll(n, seq, i + 1, s1)
                elif not isinstance(c, Exc) and c[0] == 'break':
                    yield s1, None
                else:
                    yield s1, c

    WHILE_UNROLL = 0

    def st_While(self, n, st):
        # try plain execution when the condition stays decided
        yield from self.while_exec(n, st, 0)

    def while_exec(self, n, st, i):
        for s, c in self.ev(n.test, st.copy()):
            if isinstance(c, Exc):
                yield s, c
                continue
            for s1, t in self.truth(c, s):
                if isinstance(t, bool) and i < 64 and (
                        not t or self._concrete_loop(n, s1)):
                    if not t:
                        yield from self.block(n.orelse, s1)
                    else:
                        for s2, ctl in self.block(n.body, s1):
                            if ctl is None or (not isinstance(ctl, Exc)
                                               and ctl[0] == 'cont'):
                                yield from self.while_exec(n, s2, i + 1)
                            elif not isinstance(ctl, Exc) and \
                                    ctl[0] == 'break':
                                yield s2, None
                            else:
                                yield s2, ctl
                else:
                    yield from self.cut_loop(n, st, None)
                    return

    def _concrete_loop(self, n, st):
        return self.attr_hooks.get('while_concrete', False)

    def cut_loop(self, n, entry, seq):
        """invariant-based loop rule"""
        from . import loops
        yield from loops.cut_loop(self, n, entry, seq)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s line %s' % (
                type(n).__name__, getattr(n, 'lineno', '?')))
        yield from m(n, st)

    def known_length(self, st, seq):
        """the sequence as one of concrete length, if the path fixes it"""
        if seq is None or isinstance(seq, CSeq):
            return seq
        n = zi(seq.n)
        for c in range(5):
            if self.feasible(st, n == c):
                if self.feasible(st, n != c):
                    return seq
                return CSeq([seq.get(i) for i in range(c)])
        return seq

    def evs(self, nodes, st):
        """yield (st, [values]) or (st, Exc)"""
        if not nodes:
            yield st, []
            return
        h = nodes[0]
        if isinstance(h, ast.Starred):
            for s, v in self.ev(h.value, st):
                if isinstance(v, Exc):
                    yield s, v
                    continue
                seq = self.known_length(s, self.lib.as_seq(self, s, v))
                if not isinstance(seq, CSeq):
                    raise Unsupported('starred of symbolic length')
                for s2, r in self.evs(nodes[1:], s):
                    yield s2, (r if isinstance(r, Exc)
                               else list(seq.items) + r)
            return
        for s, v in self.ev(h, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            for s2, r in self.evs(nodes[1:], s):
                if isinstance(r, Exc):
                    yield s2, r
                else:
                    yield s2, [v] + r

    def truth(self, v, st):
        """yield (st, Bool)"""
        if isb(v):
            yield st, v
        elif v is None:
            yield st, False
        elif isinstance(v, int):
            yield st, v != 0
        elif isinstance(v, float):
            yield st, bool(v)
        elif isinstance(v, str):
            yield st, len(v) > 0
        elif isinstance(v, tuple):
            yield st, len(v) > 0
        elif isinstance(v, (Num, X)):
            yield st, bnot(cmp_eq(v, 0))
        elif isinstance(v, SeqV):
            yield st, (v.seq.n > 0)
        elif isinstance(v, Sym):
            if v.sc.truth is not None:
                yield st, v.sc.truth(self, st, v)
            else:
                yield st, True
        elif isinstance(v, Ref):
            rec = st.heap[v.id]
            if isinstance(rec, ListRec):
                if rec.kind == 'arr':
                    if isinstance(rec.seq, CSeq) and rec.seq.n == 1:
                        yield from self.truth(rec.seq.items[0], st)
                        return
                    yield st, Exc('ValueError', 'truth of array')
                    return
                yield st, (rec.seq.n > 0)
            elif isinstance(rec, DictRec):
                yield st, len(rec.d) > 0
            elif isinstance(rec, ObjRec):
                yield st, True
            else:
                r = self.lib.abs_truth(self, st, v, rec)
                yield st, r
        elif isinstance(v, (UserFunc, UserClass, Ext, Bound, Cls, PyFn)):
            yield st, True
        elif isinstance(v, self.lib.HV):
            yield st, v.h_truth(self, st)
        else:
            raise Unsupported('truth of %r' % (v,))

    def ev_Constant(self, n, st):
        v = n.value
        if v is Ellipsis:
            v = Opaque('...')
        yield st, v

    def ev_JoinedStr(self, n, st):
        h = self.attr_hooks.get('fstring')
        if h is not None:
            yield from h(self, st, n)
            return
        yield st, Opaque('fstring')

    def ev_Name(self, n, st):
        f = st.env
        seen = 0
        if n.id in f.get('__globals__', ()):
            gf = st.frames.get('G:' + f['__mod__'], {})
            if n.id in gf:
                yield st, gf[n.id]
                return
        while f is not None:
            if n.id in f and not n.id.startswith('__'):
                yield st, f[n.id]
                return
            p = f.get('__parent__')
            f = st.frames.get(p) if p is not None else None
        mod = st.env['__mod__']
        v = self.glob(mod, n.id, st)
        if v is not None:
            yield st, v
            return
        b = self.lib.builtin(n.id)
        if b is not None:
            yield st, b[0]
            return
        if n.id == '__name__':
            yield st, mod
            return
        g = self.mod(mod)
        if n.id in g and g[n.id][0] == 'expr':
            yield st, None      # module global whose value is None
            return
        yield st, Exc('NameError', n.id)

    def ev_Tuple(self, n, st):
        for s, vs in self.evs(n.elts, st):
            yield s, (vs if isinstance(vs, Exc) else tuple(vs))

    def ev_List(self, n, st):
        for s, vs in self.evs(n.elts, st):
            yield s, (vs if isinstance(vs, Exc)
                      else s.alloc(ListRec(CSeq(vs))))

    def ev_Set(self, n, st):
        for s, vs in self.evs(n.elts, st):
            if isinstance(vs, Exc):
                yield s, vs
            else:
                yield from self.lib.make_set(self, s, vs)

    def ev_Dict(self, n, st):
        yield from self.lib.make_dict(self, n, st)

    def ev_Lambda(self, n, st):
        yield st, UserFunc(st.env['__mod__'], n, '<lambda>', frame=st.fid)

    def _simple(self, s0, s1):
        """s1 evolved from s0 without heap/env change"""
        if s1.env is not s0.env and s1.env != s0.env:
            return False
        if s1.ghost != s0.ghost:
            return False
        for k, r in s0.heap.items():
            if s1.heap.get(k) is not r:
                return False
        return True

    def ev_BoolOp(self, n, st):
        yield from self._boolop(isinstance(n.op, ast.And), n.values, st)

    def _boolop(self, isand, values, st):
        for s, v in self.ev(values[0], st):
            if isinstance(v, Exc) or len(values) == 1:
                yield s, v
                continue
            for s1, t in self.truth(v, s):
                if isinstance(t, Exc):
                    yield s1, t
                    continue
                if isinstance(t, bool):
                    if t == isand:
                        yield from self._boolop(isand, values[1:], s1)
                    else:
                        yield s1, v
                    continue
                # try to merge
                s2 = s1.copy()
                s2.assume(t if isand else z3.Not(t))
                outs = None
                if isb(v):
                    base = len(s2.pc)
                    outs = list(self._boolop(isand, values[1:], s2.copy()))
                    if len(outs) == 1 and isb(outs[0][1]) and \
                            self._simple(s2, outs[0][0]):
                        facts = outs[0][0].pc[base:]
                        g = t if isand else z3.Not(t)
                        s1.assume(*[z3.Implies(g, f) for f in facts])
                        yield s1, (band if isand else bor)(v, outs[0][1])
                        continue
                for s3, b in self.split(s1, t):
                    if b == isand:
                        yield from self._boolop(isand, values[1:], s3)
                    else:
                        yield s3, v

    def ev_UnaryOp(self, n, st):
        for s, v in self.ev(n.operand, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            if isinstance(n.op, ast.Not):
                for s1, t in self.truth(v, s):
                    yield s1, (t if isinstance(t, Exc) else bnot(t))
            else:
                yield from self.lib.unop(self, s, type(n.op).__name__, v)

    def ev_BinOp(self, n, st):
        for s, vs in self.evs([n.left, n.right], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            yield from self.lib.binop(self, s, type(n.op).__name__, *vs)

    def ev_Compare(self, n, st):
        if len(n.ops) == 1:
            for s, vs in self.evs([n.left, n.comparators[0]], st):
                if isinstance(vs, Exc):
                    yield s, vs
                    continue
                yield from self.lib.compare(self, s, type(n.ops[0]).__name__,
                                            *vs)
            return
        for s, vs in self.evs([n.left] + n.comparators, st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            yield from self._chain(n.ops, vs, 0, True, s)

    def _chain(self, ops, vs, i, acc, st):
        if i == len(ops):
            yield st, acc
            return
        for s, r in self.lib.compare(self, st, type(ops[i]).__name__,
                                     vs[i], vs[i + 1]):
            if isinstance(r, Exc):
                yield s, r
                continue
            if not isb(r):
                raise Unsupported('chained comparison of arrays')
            yield from self._chain(ops, vs, i + 1, band(acc, r), s)

    def ev_IfExp(self, n, st):
        for s, c in self.ev(n.test, st):
            if isinstance(c, Exc):
                yield s, c
                continue
            for s1, t in self.truth(c, s):
                if isinstance(t, bool):
                    yield from self.ev(n.body if t else n.orelse, s1)
                    continue
                a = list(self.ev(n.body, s1.copy().assume(t)))
                b = list(self.ev(n.orelse, s1.copy().assume(z3.Not(t))))
                base = len(s1.pc) + 1
                if len(a) == 1 and len(b) == 1 and \
                        not isinstance(a[0][1], Exc) and \
                        not isinstance(b[0][1], Exc) and \
                        self._simple(s1, a[0][0]) and \
                        self._simple(s1, b[0][0]):
                    try:
                        v = vite(t, a[0][1], b[0][1])
                        s1.assume(*[z3.Implies(t, f)
                                    for f in a[0][0].pc[base:]])
                        s1.assume(*[z3.Implies(z3.Not(t), f)
                                    for f in b[0][0].pc[base:]])
                        yield s1, v
                        continue
                    except Unsupported:
                        pass
                for s2, b_ in self.split(s1, t):
                    yield from self.ev(n.body if b_ else n.orelse, s2)

    def ev_Attribute(self, n, st):
        for s, o in self.ev(n.value, st):
            if isinstance(o, Exc):
                yield s, o
                continue
            yield from self.getattr(s, o, n.attr)

    def getattr(self, st, o, name):
        if isinstance(o, Module):
            if self.is_repo_mod(o.name + '.' + name):
                yield st, Module(o.name + '.' + name)
                return
            v = self.glob(o.name, name, st)
            if v is None:
                yield st, Exc('AttributeError', name)
            else:
                yield st, v
            return
        if isinstance(o, Ext):
            yield st, self.lib.ext(o.name + '.' + name, o.self)
            return
        if isinstance(o, UserClass):
            r = self.class_attr(o, name, st)
            if r is None:
                if name == '__name__':
                    yield st, o.qual.split('.')[-1]
                elif name == '__doc__':
                    yield st, Opaque('doc')
                else:
                    # PRecord class methods etc. are not modelled
                    yield st, Exc('AttributeError', name)
                return
            if isinstance(r, UserFunc):
                d = deco_names(r.node)
                if 'classmethod' in d:
                    yield st, Bound(r, o)
                else:
                    yield st, r
                return
            if isinstance(r, UserClass):
                yield st, r
                return
            yield from self.ev_in_mod(r[1], r[2], st)
            return
        if isinstance(o, Sym):
            sc = o.sc
            if name in sc.attrs:
                yield st, sc.attrs[name](self, st, o)
                return
            if name in sc.methods:
                m = sc.methods[name]
                yield st, PyFn(lambda eng, s, a, k: m(eng, s, o, a, k), name)
                return
            if sc.cls is not None:
                yield from self.user_attr(st, o, sc.cls, name)
                return
            yield st, Exc('AttributeError', '%s.%s' % (sc.name, name))
            return
        if isinstance(o, Ref):
            rec = st.heap[o.id]
            if isinstance(rec, ObjRec):
                if name in rec.fields:
                    yield st, rec.fields[name]
                    return
                if name == '__class__':
                    yield st, rec.cls
                    return
                if name == '__dict__':
                    yield st, Opaque('dict')
                    return
                if isinstance(rec.cls, UserClass):
                    yield from self.user_attr(st, o, rec.cls, name)
                    return
        yield from self.lib.attr(self, st, o, name)

    def user_attr(self, st, o, cls, name):
        if name == '__class__':
            yield st, cls
            return
        r = self.class_attr(cls, name, st)
        if r is None:
            yield from self.lib.inherited(self, st, o, cls, name)
            return
        if isinstance(r, UserFunc):
            d = deco_names(r.node)
            if 'classmethod' in d:
                yield st, Bound(r, cls)
            elif 'staticmethod' in d:
                yield st, r
            elif 'property' in d:
                yield from self.call(Bound(r, o), st, [])
            else:
                yield st, Bound(r, o)
            return
        if isinstance(r, UserClass):
            yield st, r
            return
        yield from self.ev_in_mod(r[1], r[2], st)

    def ev_in_mod(self, mod, node, st):
        save = st.fid
        fid = 'M%d' % next(_cnt)
        st.frames[fid] = {'__mod__': mod}
        st.fid = fid
        for s, v in self.ev(node, st):
            s.fid = save
            yield s, v

    def ev_Call(self, n, st):
        if self.lib.is_log_call(n):
            self.notes.add('logging calls and their arguments are skipped')
            yield st, None
            return
        for s, f in self.ev(n.func, st):
            if isinstance(f, Exc):
                yield s, f
                continue
            # generator argument to any/all/sum/...: comprehension
            for s1, a in self.evs(n.args, s):
                if isinstance(a, Exc):
                    yield s1, a
                    continue
                kws = [k for k in n.keywords]
                for s2, kv in self.evs([k.value for k in kws], s1):
                    if isinstance(kv, Exc):
                        yield s2, kv
                        continue
                    kw = {}
                    bad = None
                    for k, v in zip(kws, kv):
                        if k.arg is None:
                            r = self.lib.kw_splat(self, s2, v)
                            if isinstance(r, dict):
                                kw.update(r)
                            else:
                                kw['**'] = r
                        else:
                            kw[k.arg] = v
                    yield from self.call(f, s2, a, kw)

    def ev_Subscript(self, n, st):
        for s, o in self.ev(n.value, st):
            if isinstance(o, Exc):
                yield s, o
                continue
            for s1, i in self.ev_index(n.slice, s):
                if isinstance(i, Exc):
                    yield s1, i
                    continue
                yield from self.lib.getitem(self, s1, o, i)

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            parts = [n.lower, n.upper, n.step]
            nodes = [p for p in parts if p is not None]
            for s, vs in self.evs(nodes, st):
                if isinstance(vs, Exc):
                    yield s, vs
                    continue
                it = iter(vs)
                yield s, slice(*[next(it) if p is not None else None
                                 for p in parts])
        elif isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice)
                                              for e in n.elts):
            acc = [(st, [])]
            for e in n.elts:
                nxt = []
                for s, l in acc:
                    for s1, v in self.ev_index(e, s):
                        nxt.append((s1, l + [v]))
                acc = nxt
            for s, l in acc:
                yield s, tuple(l)
        else:
            yield from self.ev(n, st)

    def ev_Slice(self, n, st):
        yield from self.ev_index(n, st)

    def ev_ListComp(self, n, st):
        yield from self.lib.comprehension(self, n, st, 'list')

    def ev_GeneratorExp(self, n, st):
        yield from self.lib.comprehension(self, n, st, 'iter')

    def ev_SetComp(self, n, st):
        yield from self.lib.comprehension(self, n, st, 'set')

    def ev_DictComp(self, n, st):
        yield from self.lib.dictcomp(self, n, st)

    def ev_Yield(self, n, st):
        if n.value is None:
            raise Unsupported('yield None')
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            k = s.env['__yield__']
            s.ghost[k] = seq_append(s.ghost[k], v)
            yield s, None

    def ev_YieldFrom(self, n, st):
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            seq = self.lib.as_seq(self, s, v, iterate=True)
            if seq is None:
                raise Unsupported('yield from %r' % (v,))
            k = s.env['__yield__']
            s.ghost[k] = seq_concat(s.ghost[k], seq)
            yield s, None

    def ev_Starred(self, n, st):
        raise Unsupported('starred')

    def ev_NamedExpr(self, n, st):
        for s, v in self.ev(n.value, st):
            if not isinstance(v, Exc):
                s.env[n.target.id] = v
            yield s, v


# ---------------------------------------------------------------- helpers

def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def deco_names(node):
    out = []
    for d in node.decorator_list:
        if isinstance(d, ast.Name):
            out.append(d.id)
        elif isinstance(d, ast.Attribute):
            out.append(d.attr)
        elif isinstance(d, ast.Call):
            f = d.func
            out.append(getattr(f, 'id', getattr(f, 'attr', '?')))
    return out


def to_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def exc_match(name, pat):
    if pat in ('BaseException', name):
        return True
    if pat == 'Exception':
        return name not in ('KeyboardInterrupt', 'SystemExit')
    fam = {'LookupError': {'IndexError', 'KeyError'},
           'ArithmeticError': {'ZeroDivisionError', 'OverflowError'}}
    return name in fam.get(pat, ())
