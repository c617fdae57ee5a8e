"""C21: the sheet model's joints are complete and symmetric.

A joint k of the model has the sides side0(k) and side1(k), with index 0 and
1, on two different sheets of the model; a side's identifier is the pair
(joint id, sheet id).  create_intersections establishes this for every pair of
non-parallel sheets; the queries find the sides of every such model.
"""
from contracts.sl import *
from contracts.c17 import junk_ext
from pyvc import text

LEVEL = 'proof'
CSP = PC + 'create_sheetplex:'
MP = SP + 'SheetPlex'


def wf(k):
    return [in_model(k)] + inter_facts(k)


def all_wf(st):
    k = z3.Const('k', INTERS)
    st.assume(z3.ForAll([k], z3.And(inter_facts(k)),
                        patterns=[side_of[0](k), side_of[1](k)]))


def is_side(eng, s, v, e, name, f):
    ok = isinstance(v, Sym) and v.sc is eng.SC['side']
    eng.oblige(s, name, v.e == e if ok else False, f.key)


def queries(t):
    eng, st = engine(t, (MP + '.interside', SP + 'InterSide.opposite'))
    sp = model(eng)
    s = z3.Const('s', SIDES)
    st.assume(side_in(s), *wf(inter_of(s)))
    sv, sid = Sym(eng.SC['side'], s), Sym(eng.SC['sideid'], s)
    f = t.func(eng, MP + '.interside')
    ids = [sid, (Sym(eng.SC['interid'], inter_of(s)),
                 Sym(eng.SC['sheetid'], sheet_of(s)))]
    for i in ids:
        for s1, v in t.outcomes(eng, f, st.copy(), [sp, i]):
            is_side(eng, s1, v, s, 'SheetPlex.interside: the side with the '
                    'given identifier is found', f)
    f = t.func(eng, SP + 'InterSide.opposite')
    for s1, v in t.outcomes(eng, f, st.copy(), [sv, sp]):
        is_side(eng, s1, v, opp(s), 'InterSide.opposite: the other side of '
                'the same joint', f)
        if not isinstance(v, Sym):
            continue
        eng.oblige(s1, 'InterSide.opposite: on the other sheet',
                   z3.And(sheet_of(v.e) != sheet_of(s), inter_of(v.e) ==
                          inter_of(s), side_in(v.e)), f.key)
        for s2, w in t.outcomes(eng, f, s1, [v, sp]):
            is_side(eng, s2, w, s, 'InterSide.opposite: the opposite of the '
                    'opposite is the side', f)
    f = t.func(eng, SP + 'Intersection.side_by_sheet')
    a = z3.Const('a', SHEETS)
    k = z3.Const('k', INTERS)
    st.assume(*wf(k))
    iv = Sym(eng.SC['inter'], k)
    for s1, v in t.outcomes(eng, f, st.copy(), [iv, Sym(eng.SC['sheetid'],
                                                        a)]):
        if v is None:
            g = z3.And([sheet_of(x(k)) != a for x in side_of])
        elif isinstance(v, Sym) and v.sc is eng.SC['side']:
            g = z3.And(sheet_of(v.e) == a, z3.Or([v.e == x(k)
                                                  for x in side_of]))
        else:
            g = False
        eng.oblige(s1, 'Intersection.side_by_sheet: the side on that sheet, '
                   'none if there is none', g, f.key)
    f = t.func(eng, SP + 'Intersection.sheets')
    for s1, v in t.outcomes(eng, f, st.copy(), [iv]):
        q_ = as_seq(eng, s1, v)
        ok = isinstance(q_, CSeq) and q_.n == 2
        eng.oblige(s1, 'Intersection.sheets: the sheets of its two sides',
                   z3.And([x.e == sheet_of(y(k)) for x, y in zip(
                       q_.items, side_of)]) if ok else False, f.key)


def counts(w):
    def f(v):
        if isinstance(v, Sym) and v.e.sort().eq(SIDES):
            return z3.If(v.e == w, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('side %r' % (v,))
    return Fold('count', Z, z3.IntVal(0), lambda a, b: a + b, f)


def sides(t):
    """every side (of the sheet) once and no other"""
    eng, st = engine(t, (MP + '.intersides',))
    w = z3.Const('w', SIDES)
    all_wf(st)
    CNT = counts(w)
    eng.folds.append(CNT)
    f = t.func(eng, MP + '.intersides')
    sc = eng.SC
    a = z3.Const('a', SHEETS)
    for nm, args, want in (
            ('of all sheets', [], side_in(w)),
            ('of one sheet', [Sym(sc['sheetid'], a)],
             z3.And(side_in(w), sheet_of(w) == a))):
        def cands(eng, L_, st, k):
            if k is None:
                return
            en = getattr(L_.seq, 'enum', None)
            if en is None:
                return
            pos = en[2]
            for v in list(st.ghost.values()) + list(st.env.values()):
                q_ = v if isinstance(v, Seq) else as_seq(eng, st, v) if \
                    isinstance(v, Ref) and islistlike(st, v) else None
                if q_ is not None:
                    try:
                        yield 'yielded: once each of the joints so far', \
                            q_.fold(eng, CNT) == z3.If(z3.And(
                                want, pos(inter_of(w)) < k), 1, 0)
                    except Unsupported:
                        pass
        eng.candidates = cands
        for s1, v in t.outcomes(eng, f, st.copy(), [model(eng)] + args, None,
                                'SheetPlex.intersides ' + nm):
            r = as_seq(eng, s1, v, iterate=True)
            eng.oblige(s1, 'SheetPlex.intersides %s: each side once and no '
                       'other' % nm, r.fold(eng, CNT) == z3.If(want, 1, 0),
                       f.key)


class IdSet(HV):
    """an immutable set of ids given by its members"""

    def __init__(self, sort, mem):
        self.sort, self.mem = sort, mem

    def h_contains(self, eng, st, v):
        if not isinstance(v, Sym) or not v.e.sort().eq(self.sort):
            raise Unsupported('membership of %r' % (v,))
        yield st, self.mem(v.e)

    def h_class(self, eng):
        return Cls('set')

    def h_shape(self, eng, st):
        raise Unsupported('set changed in a loop')

    def h_ite(self, c, b):
        f, g = self.mem, b.mem
        return IdSet(self.sort, lambda x: z3.If(c, f(x), g(x)))

    def h_subst(self, pairs):
        return IdSet(self.sort, wrap(self.mem, self.sort, pairs))

    def h_isnone(self):
        return False


def id_set(eng, st, q_):
    v = q_.get(z3.Int('j'))
    if not isinstance(v, Sym):
        raise Unsupported('set of %r' % (v,))
    n = zi(q_.n)

    def mem(x):
        j = z3.Int('j!%d' % next(L._ids))
        return z3.Exists([j], z3.And(0 <= j, j < n, q_.get(j).e == x))
    yield st, IdSet(v.e.sort(), mem)


def limit(t):
    eng, st = engine(t)
    eng.attr_hooks['set_of_seq'] = id_set
    all_wf(st)
    sp = model(eng)
    sc = eng.SC
    n = z3.Int('n')
    el = z3.Function('wanted', Z, SHEETS)
    st.assume(n >= 0)
    q_ = FSeq(n, lambda i: Sym(sc['sheetid'], el(zi(i))), None, 'ids')
    j = z3.Int('j')
    wanted = lambda x: z3.Exists([j], z3.And(0 <= j, j < n, el(j) == x))
    f = t.func(eng, MP + '.limit')
    S, K = z3.Const('S', SHEETS), z3.Const('K', INTERS)
    for s1, v in t.outcomes(eng, f, st, [sp, L.eng_alloc(st, q_)]):
        m = v.fields if isinstance(v, RecV) and v.cls.key == MP else {}
        for fl, x, want, kind in (
                ('sheets', S, z3.And(sheet_in(S), wanted(S)), 'sheet'),
                ('intersections', K, z3.And(
                    in_model(K), *[wanted(sheet_of(y(K)))
                                   for y in side_of]), 'inter')):
            mm = m.get(fl)
            if isinstance(mm, Ref) or not isinstance(mm, MapV):
                eng.oblige(s1, 'SheetPlex.limit: has %s' % fl, False, f.key)
                continue
            d = F_ if mm.ks is None else bz(mm.dom(x))
            eng.oblige(s1, 'SheetPlex.limit: keeps exactly the %s' % (
                'wanted sheets' if kind == 'sheet' else
                'joints between wanted sheets'), d == want, f.key)
            if mm.ks is None:
                continue
            val = mm.get(x)
            eng.oblige(s1, 'SheetPlex.limit: %s are unchanged' % fl,
                       z3.Implies(d, val.e == x) if isinstance(val, Sym)
                       and val.sc is sc[kind] else False, f.key)


# ------------------------------------------------------------ creation

iid = z3.Function('joint.id', SHEETS, SHEETS, INTERS)
sine = z3.Function('sine', SHEETS, SHEETS, RS)


def iid_facts(st):
    """intersection_id tells pairs of sheets apart (proved of the real code
    below); the sine of the angle between two sheets does not depend on the
    order"""
    a, b, c, d = z3.Consts('a b c d', SHEETS)
    st.assume(
        z3.ForAll([a, b, c, d], z3.Implies(
            iid(a, b) == iid(c, d), z3.Or(z3.And(a == c, b == d), z3.And(
                a == d, b == c))), patterns=[z3.MultiPattern(
                    iid(a, b), iid(c, d))]),
        z3.ForAll([a, b], z3.And(sine(a, b) == sine(b, a), sine(a, b) >= 0),
                  patterns=[sine(a, b)]))


def joint(eng, a, b):
    sc = eng.SC
    ci = eng.lookup_func(SP + 'Intersection')
    return RecV(ci, {'first': Sym(sc['sheetid'], a),
                     'second': Sym(sc['sheetid'], b)})


def sheet_pair(eng, st, v):
    q_ = as_seq(eng, st, v)
    if not isinstance(q_, CSeq) or q_.n != 2 or not all(
            isinstance(x, Sym) and x.sc is eng.SC['sheet']
            for x in q_.items):
        raise Unsupported('pair of sheets %r' % (v,))
    return [x.e for x in q_.items]


def c_create_intersection(eng, st, f, args, kw):
    """parallel sheets (sine below 1e-5): nothing; others (sine at least
    1e-3): one joint is put at their id; in between: either"""
    sp, pr = args
    a, b = sheet_pair(eng, st, pr)
    eng.oblige(st, 'create_intersection(...): two different sheets of the '
               'model', z3.And(a != b, sheet_in(a), sheet_in(b)), f.key)
    if not isinstance(sp, RecV):
        raise Unsupported('sheet model %r' % (sp,))
    s0 = st.copy()
    s0.assume(sine(a, b) < z3.Q(1, 1000))
    yield s0, sp
    st.assume(sine(a, b) >= z3.Q(1, 100000))
    m = sp.fields['intersections'].put(Sym(eng.SC['interid'], iid(a, b)),
                                       joint(eng, a, b))
    yield st, sp.h_with('intersections', m)


def create_all(t):
    eng, st = engine(t)
    sc = eng.SC
    eng.contracts[CSP + 'create_intersection'] = c_create_intersection
    iid_facts(st)
    sheets = MapV(sc['sheetid'], lambda x: sheet_in(x),
                  lambda x: Sym(sc['sheet'], x), 'sheets')
    A, B_ = z3.Consts('A B', SHEETS)
    K = z3.Const('K', INTERS)
    sp = RecV(eng.lookup_func(MP), {'sheets': sheets,
                                    'intersections': NOMAP})
    enums = []
    real = sheets.enum

    def enum(e, s):
        r = real(e, s)
        enums.append(r)
        return r
    sheets.enum = enum

    def complete(m, seen):
        g = z3.And(A != B_, sheet_in(A), sheet_in(B_), seen,
                   sine(A, B_) >= z3.Q(1, 1000))
        if m.ks is None:
            return z3.Not(g)
        out = []
        for k in (iid(A, B_), iid(B_, A)):
            v = m.get(k)
            if not isinstance(v, RecV) or 'first' not in v.fields:
                return F_
            a, b = v.fields['first'].e, v.fields['second'].e
            out.append(z3.And(bz(m.dom(k)), z3.Or(z3.And(
                a == A, b == B_), z3.And(a == B_, b == A))))
        return z3.Implies(g, z3.Or(out))

    def sound(m, before=None):
        if m.ks is None:
            return z3.BoolVal(True)
        out = []
        for k in (K, iid(A, B_), iid(B_, A)):
            v = m.get(k)
            if not isinstance(v, RecV) or 'first' not in v.fields:
                return F_
            a, b = v.fields['first'].e, v.fields['second'].e
            out.append(z3.Implies(bz(m.dom(k)), z3.And(
                k == iid(a, b), a != b, sheet_in(a), sheet_in(b),
                sine(a, b) >= z3.Q(1, 100000),
                before(a, b) if before else True)))
        return z3.And(out)

    def single(m):
        if m.ks is None:
            return z3.BoolVal(True)
        return z3.Implies(z3.And(A != B_, bz(m.dom(iid(A, B_))),
                                 bz(m.dom(iid(B_, A)))),
                          iid(A, B_) == iid(B_, A))

    def cands(eng, L_, st, k):
        if k is None:
            k = z3.IntVal(0)
        for v, x in st.env.items():
            if v.startswith('__') or not isinstance(x, RecV) or \
                    'intersections' not in x.fields:
                continue
            m = x.fields['intersections']
            yield v + ': every joint is between two sheets, under their id',\
                sound(m)
            for n, at, pos in enums[-3:]:
                for w, g in (('first', lambda a, b: pos(a) < pos(b)),
                             ('last', lambda a, b: pos(a) > pos(b))):
                    yield '%s: every joint is between two sheets, the ' \
                        'earlier sheet %s' % (v, w), sound(m, g)
                pa, pb = pos(A), pos(B_)
                lo, hi = z3.If(pa < pb, pa, pb), z3.If(pa < pb, pb, pa)
                yield v + ': has the joints of the sheets so far', \
                    complete(m, lo < k)
                for u, y in L_.entry.env.items():
                    if isinstance(y, Sym) and y.sc is sc['sheet']:
                        pu = pos(y.e)
                        yield '%s: has the joints with the sheets before ' \
                            '%s and those of %s so far' % (v, u, u), \
                            complete(m, z3.Or(lo < pu, z3.And(
                                lo == pu, hi < pu + 1 + k)))
                        yield '%s: has the joints with the sheets before ' \
                            '%s and those of %s before it so far' % (
                                v, u, u), complete(m, z3.Or(
                                    hi < pu, z3.And(hi == pu, lo < k)))
                yield v + ': has the joints among the sheets so far', \
                    complete(m, hi < k)
    eng.candidates = cands
    f = t.func(eng, CSP + 'create_intersections')
    for s1, v in t.outcomes(eng, f, st, [sp]):
        if not isinstance(v, RecV) or not isinstance(v.fields.get(
                'intersections'), MapV):
            eng.oblige(s1, 'create_intersections: returns a model', False,
                       f.key)
            continue
        m = v.fields['intersections']
        eng.oblige(s1, 'create_intersections: the sheets are unchanged',
                   v.fields['sheets'] is sheets, f.key)
        eng.oblige(s1, 'create_intersections: every pair of non-parallel '
                   'sheets has a joint', complete(m, z3.BoolVal(True)), f.key)
        eng.oblige(s1, 'create_intersections: every joint is between two '
                   'different non-parallel sheets', sound(m), f.key)
        eng.oblige(s1, 'create_intersections: no pair of sheets has two '
                   'joints', single(m), f.key)


class NormalV(Junk):
    def __init__(self, s):
        self.s = s


class CrossV(Junk):
    def __init__(self, a, b):
        self.a, self.b = a, b


def c_normal(eng, st, f, args, kw):
    yield st, NormalV(args[0].e)


def x_cross(eng, st, f, args, kw):
    if all(isinstance(a, NormalV) for a in args[:2]):
        yield st, CrossV(args[0].s, args[1].s)
    else:
        yield st, Junk()


def x_norm(eng, st, f, args, kw):
    if isinstance(args[0], CrossV):
        st.assume(sine(args[0].a, args[0].b) >= 0)
        yield st, Num('float', sine(args[0].a, args[0].b))
    else:
        yield st, Junk()


def x_lstsq(eng, st, f, args, kw):
    yield st, (Junk(), Junk(), Junk(), Junk())


def c_intersection_id(eng, st, f, args, kw):
    """the id of the joint of two sheets"""
    a, b = sheet_pair(eng, st, args[0])
    yield st, Sym(eng.SC['interid'], iid(a, b))


def x_vectorize(eng, st, f, args, kw):
    yield st, PyFn(lambda e, s, a, k: iter([(s, Junk())]), 'vectorized')


def num_ext(eng):
    eng.extra_ext.update({
        'numpy.cross': x_cross, 'numpy.linalg.norm': x_norm,
        'numpy.linalg.lstsq': x_lstsq, 'numpy.vectorize': x_vectorize,
        'numpy.dot': junk_ext, 'numpy.min': junk_ext, 'numpy.max': junk_ext,
        'numpy.array': junk_ext, 'numpy.asarray': junk_ext})
    eng.contracts[SP + 'Sheet.normal'] = c_normal
    eng.contracts[SP + 'Sheet.offset'] = junk_ext
    eng.contracts[SP + 'Sheet.project_point4'] = junk_ext


def side_rec(eng, k, i):
    """the side (as record) with index i of the joint with id k"""
    sc = eng.SC
    s = sheet_of(side_of[i](k))
    return RecV(eng.lookup_func(SP + 'InterSide'), dict(
        id=(Sym(sc['interid'], k), Sym(sc['sheetid'], s)),
        intersection=Sym(sc['interid'], k), sheet=Sym(sc['sheetid'], s),
        idx=i, direction=Junk(), normal=Junk(), origin_offset=Junk(),
        min_normal_offset=Junk(), max_normal_offset=Junk()))


def c_create_inter_side(eng, st, f, args, kw):
    sp, inter, sheet, idx = args
    ok = isinstance(inter, RecV) and isinstance(sheet, Sym)
    if not ok or not isinstance(inter.fields.get('id'), Sym):
        raise Unsupported('arguments of create_inter_side')
    sc = eng.SC
    i, s = inter.fields['id'], Sym(sc['sheetid'], sheet.e)
    yield st, RecV(eng.lookup_func(SP + 'InterSide'), dict(
        id=(i, s), intersection=i, sheet=s, idx=idx, direction=Junk(),
        normal=Junk(), origin_offset=Junk(), min_normal_offset=Junk(),
        max_normal_offset=Junk()))


def side_obls(eng, s, r, i, sh, idx, name, f):
    m = r.fields if isinstance(r, RecV) else {}

    def same(v, e):
        return v.e == e if isinstance(v, Sym) and v.e.sort().eq(
            e.sort()) else F_
    v = m.get('id')
    eng.oblige(s, name + ': its identifier is (joint id, sheet id)',
               z3.And(same(v[0], i), same(v[1], sh)) if isinstance(v, tuple)
               and len(v) == 2 else False, f.key)
    eng.oblige(s, name + ': it names its joint', same(m.get(
        'intersection'), i), f.key)
    eng.oblige(s, name + ': it names its sheet', same(m.get('sheet'), sh),
               f.key)
    x = L.lift(m.get('idx')) if m.get('idx') is not None else None
    eng.oblige(s, name + ': it has its position in the joint as index',
               zi(x.e if isinstance(x, Num) else x) == idx
               if x is not None else False, f.key)


def create_one(t):
    eng, st = engine(t)
    sc = eng.SC
    num_ext(eng)
    eng.contracts[CSP + 'intersection_id'] = c_intersection_id
    eng.contracts[CSP + 'create_inter_side'] = c_create_inter_side
    iid_facts(st)
    A, B_ = z3.Consts('A B', SHEETS)
    K = z3.Const('K', INTERS)
    st.assume(A != B_, sheet_in(A), sheet_in(B_))
    old = z3.Function('old.joint', INTERS, B)
    ci = eng.lookup_func(SP + 'Intersection')

    def get(k):
        return RecV(ci, dict(id=Sym(sc['interid'], k), direction=Junk(),
                             origins=Junk(), sides=tuple(side_rec(
                                 eng, k, i) for i in (0, 1))))
    sp = RecV(eng.lookup_func(MP), {
        'sheets': MapV(sc['sheetid'], lambda x: sheet_in(x),
                       lambda x: Sym(sc['sheet'], x), 'sheets'),
        'intersections': MapV(sc['interid'], lambda k: old(k), get,
                              'joints')})
    f = t.func(eng, CSP + 'create_intersection')
    pair = (Sym(sc['sheet'], A), Sym(sc['sheet'], B_))
    n = 'create_intersection'
    got = 0
    for s1, v in t.outcomes(eng, f, st, [sp, pair]):
        if v is sp:
            eng.oblige(s1, n + ': non-parallel sheets get a joint',
                       sine(A, B_) < z3.Q(1, 1000), f.key)
            continue
        got += 1
        m = v.fields.get('intersections') if isinstance(v, RecV) else None
        if isinstance(m, Ref) or not isinstance(m, MapV):
            eng.oblige(s1, n + ': returns a model', False, f.key)
            continue
        eng.oblige(s1, n + ': the sheets are unchanged',
                   v.fields['sheets'] is sp.fields['sheets'], f.key)
        eng.oblige(s1, n + ': parallel sheets get no joint',
                   sine(A, B_) >= z3.Q(1, 100000), f.key)
        k = iid(A, B_)
        eng.oblige(s1, n + ': exactly one joint is added, under the id of '
                   'the sheets', bz(m.dom(K)) == z3.Or(old(K), K == k), f.key)
        j = m.get(k)
        sd = j.fields.get('sides') if isinstance(j, RecV) else None
        q_ = as_seq(eng, s1, sd) if sd is not None else None
        if not isinstance(q_, CSeq) or q_.n != 2:
            eng.oblige(s1, n + ': the joint has two sides', False, f.key)
            continue
        eng.oblige(s1, n + ': the joint knows its id', j.fields['id'].e == k,
                   f.key)
        for i, (x, sh) in enumerate(zip(q_.items, (A, B_))):
            side_obls(eng, s1, x, k, sh, i, '%s: side %d' % (n, i), f)
        jo = m.get(K)
        try:
            kept = z3.And([
                z3.And(jo.fields['id'].e == K, *[
                    x.fields['sheet'].e == sheet_of(side_of[i](K))
                    for i, x in enumerate(jo.fields['sides'])])])
        except Exception:
            kept = F_
        eng.oblige(s1, n + ': the other joints are unchanged', z3.Implies(
            z3.And(K != k, old(K)), kept), f.key)
    if not got:
        eng.oblige(st, n + ': a joint is created', False, f.key)


def create_side(t):
    eng, st = engine(t)
    sc = eng.SC
    num_ext(eng)
    A = z3.Const('A', SHEETS)
    K = z3.Const('K', INTERS)
    ix = z3.Int('idx')
    st.assume(0 <= ix, ix <= 1)
    inter = RecV(eng.lookup_func(SP + 'Intersection'), dict(
        id=Sym(sc['interid'], K), direction=Junk(), origins=Junk()))
    sp = model(eng)
    f = t.func(eng, CSP + 'create_inter_side')
    for s1, v in t.outcomes(eng, f, st, [sp, inter, Sym(sc['sheet'], A),
                                         Num('int', ix)]):
        side_obls(eng, s1, v, K, A, ix, 'create_inter_side', f)


def joint_ids(t):
    """over the text of the ids (which contain no comma: 's%d')"""
    eng, st = engine(t)
    text.install(eng)
    sh = Schema('sheet with id', z3.StringSort(),
                eng.lookup_func(SP + 'Sheet'))
    sh.attrs['id'] = lambda e, s, o: text.text(o.e)
    ids = z3.Consts('a b c d', z3.StringSort())
    for x in ids:
        st.assume(z3.Not(z3.Contains(x, z3.StringVal(','))))
    a, b, c, d = ids
    f = t.func(eng, CSP + 'intersection_id')
    V = lambda x, y: (Sym(sh, x), Sym(sh, y))

    def run(s, x, y):
        for s1, v in t.outcomes(eng, f, s, [V(x, y)]):
            e = text.term(v)
            if e is None:
                eng.oblige(s1, 'intersection_id: is a text', False, f.key)
                continue
            yield s1, e
    for s1, u in run(st.copy(), a, b):
        for s2, v in run(s1.copy(), c, d):
            eng.oblige(s2, 'intersection_id: different for different pairs '
                       'of sheets', z3.Implies(u == v, z3.Or(
                           z3.And(a == c, b == d), z3.And(a == d, b == c))),
                       f.key)


TARGETS = [('queries', queries), ('SheetPlex.intersides', sides),
           ('SheetPlex.limit', limit),
           ('create_intersections', create_all),
           ('create_intersection', create_one),
           ('create_inter_side', create_side),
           ('intersection_id', joint_ids)]
