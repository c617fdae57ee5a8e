"""Discharging obligations with z3 (several configurations) and cvc5."""
import os
import select
import subprocess
import tempfile
import threading
import time
import z3
from fractions import Fraction

STATS = {'queries': 0, 'secs': 0.0, 'feas': 0, 'feas_secs': 0.0,
         'by': {}}
_fcache = {}


class R:
    def __init__(self, ok, status, backend, secs, model=None):
        self.ok, self.status, self.backend = ok, status, backend
        self.secs, self.model = secs, model


def feasible(axioms, pc, timeout=1000, rlimit=120000):
    """False only if the facts are contradictory (found with limited
    effort; the limit is z3's resource count, so that it does not depend on
    the load of the machine)"""
    t = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('random_seed', 1)
    s.set('smt.mbqi', False)
    s.set('rlimit', rlimit)
    for a in axioms:
        s.add(a)
    for p in pc:
        s.add(p)
    r = guarded(s, timeout)
    STATS['feas'] += 1
    STATS['feas_secs'] += time.time() - t
    return r != z3.unsat


_hq = {}


def has_quant(fs):
    for f in fs:
        i = f.get_id()
        c = _hq.get(i)
        if c is None or not c[0].eq(f):
            g = z3.Goal()
            g.add(f if z3.is_bool(f) else f == f)
            c = (f, _QPROBE(g) > 0)
            if len(_hq) > 20000:
                _hq.clear()
            _hq[i] = c
        if c[1]:
            return True
    return False


_QPROBE = z3.Probe('has-quantifiers')


def mixed(fs):
    seen = set()
    todo = list(fs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e) and e.decl().kind() in (
                z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV,
                z3.Z3_OP_MOD):
            return True
        if z3.is_quantifier(e):
            todo.append(e.body())
        else:
            todo.extend(e.children())
    return False


def _z3(fs, timeout, tactic=None, **opts):
    if timeout > 3000 and mixed(fs):
        # integer/real mixtures can make the solver ignore its time limit
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                r, m = _z3_in(fs, timeout, tactic, **opts)
                os.write(wr, str(r).encode())
            finally:
                os._exit(0)
        os.close(wr)
        ready, _, _ = select.select([rd], [], [], timeout / 1000 + 2)
        txt = os.read(rd, 20).decode() if ready else ''
        os.close(rd)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
        if txt == 'sat':
            try:
                return _z3_in(fs, 3000, tactic, **opts)
            except z3.Z3Exception:
                return z3.sat, None
        return (z3.unsat if txt == 'unsat' else z3.unknown), None
    return _z3_in(fs, timeout, tactic, **opts)


def _z3_in(fs, timeout, tactic=None, **opts):
    if tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set('timeout', timeout)
    for k, v in opts.items():
        s.set(k, v)
    for f in fs:
        s.add(f)
    r = guarded(s, timeout)
    return r, (s.model() if r == z3.sat else None)


def guarded(s, timeout):
    """check with a watchdog: z3's own limit is not always honoured"""
    tm = threading.Timer(timeout / 1000 + 1.5, s.ctx.interrupt)
    tm.daemon = True
    tm.start()
    try:
        return s.check()
    finally:
        tm.cancel()


# ------------------------------------------------------- ring normal forms

class _TooBig(Exception):
    pass


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(a, b):
    if len(a) * len(b) > 20000:
        raise _TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _rat(e, dens):
    """z3 real term -> (num, den) polynomials over atoms"""
    one = {(): Fraction(1)}
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = Fraction(e.as_long()) if z3.is_int_value(e) else e.as_fraction()
        f = Fraction(f.numerator, f.denominator)
        return ({(): f} if f else {}), one
    if z3.is_app(e):
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = _rat(ch[0], dens)
            for c in ch[1:]:
                n2, d2 = _rat(c, dens)
                sg = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2:
                    n = _padd(n, n2, sg)
                else:
                    n = _padd(_pmul(n, d2), _pmul(n2, d), sg)
                    d = _pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = _rat(ch[0], dens)
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = _rat(ch[0], dens)
            for c in ch[1:]:
                n2, d2 = _rat(c, dens)
                n, d = _pmul(n, n2), _pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = _rat(ch[0], dens)
            n2, d2 = _rat(ch[1], dens)
            dens.append(ch[1])
            return _pmul(n, d2), _pmul(d, n2)
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and \
                0 <= ch[1].as_long() <= 6:
            n, d = {(): Fraction(1)}, one
            b = _rat(ch[0], dens)
            for _ in range(ch[1].as_long()):
                n, d = _pmul(n, b[0]), _pmul(d, b[1])
            return n, d
    return {(e.get_id(),): Fraction(1)}, one


def ring_identity(goal):
    """goal an equality of real terms that is an identity of rational
    functions: list of denominators that have to be non-zero, else None"""
    if not (z3.is_eq(goal) and z3.is_real(goal.arg(0))):
        return None
    dens = []
    try:
        n1, d1 = _rat(goal.arg(0), dens)
        n2, d2 = _rat(goal.arg(1), dens)
        diff = _padd(_pmul(n1, d2), _pmul(n2, d1), -1)
    except (_TooBig, RecursionError):
        return None
    return dens if not diff else None


def prove(axioms, pc, goal, timeout=10000, single=False):
    """is axioms /\\ pc => goal valid?"""
    if z3.is_and(goal) and not single:
        rs = []
        for g in goal.children():
            r = prove(axioms, pc, g, timeout, single)
            rs.append(r)
            if not r.ok:
                return r
        return R(True, 'proved', rs[-1].backend, sum(r.secs for r in rs))
    if not single:
        t0 = time.time()
        dens = ring_identity(goal)
        if dens is not None:
            ok = True
            for d in dens:
                dz = z3.simplify(d)
                if z3.is_rational_value(dz):
                    ok = ok and dz.as_fraction() != 0
                    continue
                ok = ok and prove1(axioms, pc, d != 0, timeout, True).ok
            if ok:
                STATS['by']['ring'] = STATS['by'].get('ring', 0) + 1
                return R(True, 'proved', 'ring', time.time() - t0)
    return prove1(axioms, pc, goal, timeout, single)


def flat(fs):
    for f in fs:
        if z3.is_and(f):
            yield from flat(f.children())
        else:
            yield f


def index_terms(goal, limit=14):
    """integer terms the goal talks about (arguments of uninterpreted
    functions, constants and their neighbours)"""
    seen = set()
    out = []

    def add(t):
        t = z3.simplify(t)
        if all(not t.eq(o) for o in out):
            out.append(t)
    todo = [goal]
    consts = []
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for c in e.children():
                if z3.is_int(c):
                    add(c)
            if e.num_args() == 0 and z3.is_int(e):
                consts.append(e)
        todo.extend(e.children())
    for c in consts:
        add(c)
    for c in consts:
        add(c - 1)
        add(c + 1)
    add(z3.IntVal(0))
    return out[:limit]


def instances(fs, terms):
    """quantified facts over integers replaced by instances (weaker)"""
    out = []
    for p in flat(fs):
        if not z3.is_quantifier(p):
            if not has_quant([p]):
                out.append(p)
            continue
        if not p.is_forall():
            continue
        k = p.num_vars()
        if any(p.var_sort(i) != z3.IntSort() for i in range(k)):
            continue
        new = []
        if k == 1:
            new = [z3.substitute_vars(p.body(), t) for t in terms]
        elif k == 2:
            new = [z3.substitute_vars(p.body(), u, t) for t in terms
                   for u in terms if not t.eq(u)]
        if new and not has_quant(new[:1]):
            out += new
    return out


def prove_inst(axioms, pc, goal, timeout, rounds=1):
    """try with the quantified facts instantiated at the goal's terms"""
    if has_quant([goal]):
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.FreshConst(goal.var_sort(i), 'sk')
                  for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
            if has_quant([goal]):
                return False
        else:
            return False
    try:
        hyp = list(axioms) + list(pc)
        terms = index_terms(goal)
        fs = instances(hyp, terms)
        r, _ = _z3(fs + [z3.Not(goal)], timeout, None, random_seed=1)
        if r != z3.unsat and rounds > 1:
            # index functions (permutations, witnesses) applied to them
            terms += applied(fs, terms)
            fs = instances(hyp, terms)
            r, _ = _z3(fs + [z3.Not(goal)], timeout, None, random_seed=1)
    except z3.Z3Exception:
        return False
    return r == z3.unsat


def applied(fs, terms, limit=10):
    """integer-valued uninterpreted applications to the given terms"""
    out = []
    seen = set()
    todo = list(fs)
    ids = {t.get_id() for t in terms}
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if z3.is_int(e) and e.num_args() and e.decl().kind() == \
                z3.Z3_OP_UNINTERPRETED and any(
                    c.get_id() in ids and not z3.is_int_value(c)
                    for c in e.children()):
            if all(not e.eq(o) for o in out):
                out.append(e)
        todo.extend(e.children())
    out.sort(key=lambda e: (len(str(e)), str(e)))
    return out[:limit]


def exist_goal(pc, goal, limit=30):
    """an existential goal over an uninterpreted sort: the facts with their
    existentials named, and the disjunction of the goal's instances at the
    terms of that sort (stronger than the goal); None if not of that form"""
    more = []
    while True:
        if z3.is_implies(goal):
            more.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_or(goal) and sum(map(z3.is_quantifier,
                                        goal.children())) == 1:
            more += [z3.Not(c) for c in goal.children()
                     if not z3.is_quantifier(c)]
            goal, = [c for c in goal.children() if z3.is_quantifier(c)]
        else:
            break
    if not (z3.is_quantifier(goal) and goal.is_exists() and
            goal.num_vars() == 1 and
            goal.var_sort(0).kind() == z3.Z3_UNINTERPRETED_SORT):
        return None
    so = goal.var_sort(0)

    def named(q):
        vs = [z3.FreshConst(q.var_sort(i), 'wit')
              for i in range(q.num_vars())]
        return z3.substitute_vars(q.body(), *reversed(vs))
    fs = []
    for p in flat(list(pc) + more):
        if z3.is_quantifier(p) and p.is_exists():
            p = named(p)
        elif z3.is_implies(p) and z3.is_quantifier(p.arg(1)) and \
                p.arg(1).is_exists():
            p = z3.Implies(p.arg(0), named(p.arg(1)))
        fs.append(p)
    terms, seen = [], set()
    todo = fs + [goal]
    ground = {}

    def is_ground(e):
        i = e.get_id()
        if i not in ground:
            ground[i] = not z3.is_var(e) and not z3.is_quantifier(e) and \
                all(is_ground(c) for c in e.children())
        return ground[i]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if not z3.is_var(e) and e.sort() == so and is_ground(e):
            terms.append(e)
        todo.extend(e.children())
    terms.sort(key=lambda e: (len(str(e)), str(e)))
    if not terms:
        return None
    return fs, z3.Or([z3.substitute_vars(goal.body(), t)
                      for t in terms[:limit]])


def has_text(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_expr(x) and x.sort().kind() == z3.Z3_SEQ_SORT:
            return True
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def prove1(axioms, pc, goal, timeout=10000, single=False):
    t0 = time.time()
    STATS['queries'] += 1
    if z3.is_true(z3.simplify(goal)):
        STATS['by']['simplify'] = STATS['by'].get('simplify', 0) + 1
        return R(True, 'proved', 'simplify', 0.0)
    fs = list(axioms) + list(pc) + [z3.Not(goal)]
    status, model, be = 'unknown', None, ''
    quant = has_quant(fs)
    eg = exist_goal(pc, goal) if quant else None
    if eg is not None:
        fs = list(axioms) + eg[0] + [z3.Not(eg[1])]
        try:
            r, _ = _z3(fs, min(timeout, 1000 if single else 4000), None,
                       random_seed=1)
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            STATS['by']['z3-wit'] = STATS['by'].get('z3-wit', 0) + 1
            secs = time.time() - t0
            STATS['secs'] += secs
            return R(True, 'proved', 'z3-wit', secs)
        fs = list(axioms) + list(pc) + [z3.Not(goal)]
    attempts = [('z3', None, {'random_seed': 1}, timeout)]
    if quant and single:
        attempts = [('z3', None, {'random_seed': 1}, min(timeout, 1000))]
    if quant and prove_inst(axioms, pc, goal, min(timeout, 3000)
                            if not single else 1000, 1 if single else 2):
        attempts = []
        status, be = 'proved', 'z3-inst'
    if not single:
        if be:
            attempts = []
        elif not quant:
            attempts = [('z3', None, {'random_seed': 1},
                         min(timeout, 3000)),
                        ('z3-nlsat', 'qfnra-nlsat', {}, timeout),
                        ('z3', None, {'random_seed': 1}, timeout)]
        else:
            attempts.append(('z3-nomb', None, {'smt.mbqi': False,
                                               'random_seed': 7}, timeout))
            attempts.append(('z3-seed', None, {'random_seed': 42,
                                               'smt.arith.solver': 2},
                             timeout))
    if has_text(goal):
        attempts = [('z3', None, {'random_seed': 1}, min(timeout, 1000))]
    for name, tac, opts, to in attempts:
        try:
            r, m = _z3(fs, to, tac, **opts)
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            status, be = 'proved', name
            break
        if r == z3.sat:
            status, be, model = 'refuted', name, m
            break
    if status == 'unknown' and not single:
        r = _cvc5(fs, timeout)
        if r == 'unsat':
            status, be = 'proved', 'cvc5'
    secs = time.time() - t0
    STATS['secs'] += secs
    if status == 'proved':
        STATS['by'][be] = STATS['by'].get(be, 0) + 1
    return R(status == 'proved', status, be, secs, model)


def _cvc5(fs, timeout):
    try:
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                         delete=False) as f:
            f.write(txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name],
                               capture_output=True, text=True,
                               timeout=timeout / 1000 + 5)
            return o.stdout.strip().split('\n')[0] if o.stdout else 'unknown'
        finally:
            os.unlink(f.name)
    except Exception:
        return 'unknown'
