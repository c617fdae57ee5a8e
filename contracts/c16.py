"""C16: joint decisions never give the same place to two sheets.

A decision state is consistent when, for every sheet, point, joint side and
position in general position,
  I1 chosen sheet points are permitted,   I2 chosen positions are permitted,
  I3 a position chosen for a side is not permitted to the other side.
The initial state also has
  I4 no chosen sheet point lies on a finger still permitted to the other side
(steps do not preserve I4 where joints overlap; see DESIGN.md).
"""
from contracts.sl import *

LEVEL = 'proof'
SB = SBM + 'SheetBuild'


def quant(eng, sb):
    """I1 - I3 for every key and point"""
    s, w = z3.Const('s', SHEETS), z3.Const('w', SIDES)
    p, x = z3.Const('p', PT), z3.Real('x')
    out = []
    a, b = at(sb, 'sheet_chosen', s, p), at(sb, 'sheet_ok', s, p)
    out.append(z3.ForAll([s, p], z3.Implies(z3.And(sheet_in(s), a), b)))
    a = at(sb, 'interside_chosen', w, x)
    out.append(z3.ForAll([w, x], z3.Implies(
        z3.And(side_in(w), a), z3.And(
            at(sb, 'interside_ok', w, x),
            z3.Not(at(sb, 'interside_ok', opp(w), x))))))
    k = z3.Const('k', INTERS)
    out.append(z3.ForAll([k], z3.And(inter_facts(k))))
    for f, key in FIELDS.items():
        e, m = (s, sheet_in(s)) if key is SHEETS else (w, side_in(w))
        if not z3.simplify(dom(sb, f, e)).eq(z3.simplify(m)):
            out.append(z3.ForAll([e], z3.Implies(m, dom(sb, f, e))))
    return out


def witnesses(eng):
    s, w = z3.Const('sheet.w', SHEETS), z3.Const('side.w', SIDES)
    p, x = z3.Const('p.w', PT), z3.Real('x.w')
    return s, w, p, x


def consistent(eng, s, sb, wit, name, func):
    S, w, p, x = wit
    s = s.copy()
    s.assume(sheet_in(S), side_in(w), *inter_facts(inter_of(w)))
    for f, key in FIELDS.items():
        k = S if key is SHEETS else w
        eng.oblige(s, '%s: %s covers every key of the model' % (name, f),
                   dom(sb, f, k), func.key)
    eng.oblige(s, '%s: chosen sheet points are permitted' % name,
               z3.Implies(at(sb, 'sheet_chosen', S, p),
                          at(sb, 'sheet_ok', S, p)), func.key)
    eng.oblige(s, '%s: chosen positions are permitted' % name,
               z3.Implies(at(sb, 'interside_chosen', w, x),
                          at(sb, 'interside_ok', w, x)), func.key)
    eng.oblige(s, '%s: chosen positions are not permitted to the other side'
               % name, z3.Implies(at(sb, 'interside_chosen', w, x), z3.Not(
                   at(sb, 'interside_ok', opp(w), x))), func.key)


def isb(v):
    return isinstance(v, RecV) and all(
        isinstance(v.fields.get(f), MapV) for f in FIELDS)


def same_model(eng, s, r, sb, name, func):
    eng.oblige(s, '%s: the sheet model is carried over' % name,
               r.fields.get('sheetplex') is sb.fields['sheetplex'], func.key)


def frame(eng, s, r, sb, wit, name, func, what):
    """what: field -> term for the new membership at the witness"""
    S, w, p, x = wit
    s = s.copy()
    s.assume(sheet_in(S), side_in(w), *inter_facts(inter_of(w)))
    for f, key in FIELDS.items():
        k, y = (S, p) if key is SHEETS else (w, x)
        eng.oblige(s, '%s: %s changes exactly as stated' % (name, f),
                   at(r, f, k, y) == what.get(f, at(sb, f, k, y)), func.key)


def result_sb(eng, s, v, name, func):
    if isinstance(v, Exc):
        return None
    if not isb(v):
        eng.oblige(s, '%s: returns a decision state' % name, False, func.key)
        return None
    return v


def setup(t, tentative=None):
    eng, st = engine(t)
    sb = state(eng, 'sb.')
    st.assume(*quant(eng, sb))
    return eng, st, sb


def side_arg(eng, st, name='i'):
    i = z3.Const(name, SIDES)
    st.assume(side_in(i), *inter_facts(inter_of(i)))
    return i, Sym(eng.SC['sideid'], i)


def choose(t):
    eng, st, sb = setup(t)
    wit = S, w, p, x = witnesses(eng)
    i, iv = side_arg(eng, st)
    V = z3.Function('v', RS, B)
    v = GeomV(1, lambda y: V(y))
    y, pp = z3.Real('y'), z3.Const('pp', PT)
    st.assume(z3.ForAll([y], z3.Implies(V(y), at(sb, 'interside_ok', i,
                                                 y))))
    o = opp(i)
    st.assume(z3.ForAll([pp], z3.Not(z3.And(
        strip(o, pp), V(proj(o, pp)),
        at(sb, 'sheet_chosen', sheet_of(o), pp)))))
    f = t.func(eng, SB + '.choose_interside')
    for tent in (False, True):
        nm = 'choose_interside' + (' (tentative)' if tent else '')
        kw = {'tentative': True} if tent else {}
        for s, r in t.outcomes(eng, f, st.copy(), [sb, iv, v], kw, nm):
            if not result_sb(eng, s, r, nm, f):
                continue
            same_model(eng, s, r, sb, nm, f)
            consistent(eng, s, r, wit, nm, f)
            fing = lambda q_: z3.And(strip(q_, p), V(proj(q_, p)))
            A = lambda fl, k, z: at(sb, fl, k, z)
            frame(eng, s, r, sb, wit, nm, f, {
                'sheet_chosen': A('sheet_chosen', S, p) if tent else z3.Or(
                    A('sheet_chosen', S, p), z3.And(
                        S == sheet_of(i), fing(i), A('sheet_ok', S, p))),
                'sheet_ok': z3.And(A('sheet_ok', S, p), z3.Not(z3.And(
                    S == sheet_of(o), fing(o)))),
                'interside_chosen': z3.Or(A('interside_chosen', w, x),
                                          z3.And(w == i, V(x))),
                'interside_ok': z3.And(A('interside_ok', w, x), z3.Not(
                    z3.And(w == o, V(x))))})


def unchoose(t):
    eng, st, sb = setup(t)
    wit = S, w, p, x = witnesses(eng)
    i, iv = side_arg(eng, st)
    V = z3.Function('v', RS, B)
    v = GeomV(1, lambda y: V(y))
    y = z3.Real('y')
    st.assume(z3.ForAll([y], z3.Not(z3.And(V(y), at(
        sb, 'interside_chosen', i, y)))))
    f = t.func(eng, SB + '.unchoose_interside')
    nm = 'unchoose_interside'
    for s, r in t.outcomes(eng, f, st, [sb, iv, v]):
        if not result_sb(eng, s, r, nm, f):
            continue
        same_model(eng, s, r, sb, nm, f)
        consistent(eng, s, r, wit, nm, f)
        frame(eng, s, r, sb, wit, nm, f, {
            'interside_ok': z3.And(at(sb, 'interside_ok', w, x), z3.Not(
                z3.And(w == i, V(x))))})


def unchoose_area(t):
    eng, st, sb = setup(t)
    wit = S, w, p, x = witnesses(eng)
    s0 = z3.Const('sheet', SHEETS)
    st.assume(sheet_in(s0))
    A = z3.Function('area', PT, B)
    pp = z3.Const('pp', PT)
    st.assume(z3.ForAll([pp], z3.Not(z3.And(A(pp), at(
        sb, 'sheet_chosen', s0, pp)))))
    f = t.func(eng, SB + '.unchoose_sheet_area')
    nm = 'unchoose_sheet_area'
    for s, r in t.outcomes(eng, f, st, [
            sb, Sym(eng.SC['sheetid'], s0), GeomV(2, lambda y: A(y))]):
        if not result_sb(eng, s, r, nm, f):
            continue
        same_model(eng, s, r, sb, nm, f)
        consistent(eng, s, r, wit, nm, f)
        frame(eng, s, r, sb, wit, nm, f, {
            'sheet_ok': z3.And(at(sb, 'sheet_ok', S, p), z3.Not(z3.And(
                S == s0, A(p))))})


def rejects(t):
    """what breaks the requirements is refused, not carried out"""
    eng, st, sb = setup(t)
    i, iv = side_arg(eng, st)
    V = z3.Function('v', RS, B)
    v = GeomV(1, lambda y: V(y))
    y0, p0 = z3.Real('y0'), z3.Const('p0', PT)
    o = opp(i)
    bad = {'choose_interside': [
        ('a range not permitted', z3.And(V(y0), z3.Not(at(
            sb, 'interside_ok', i, y0)))),
        ('a range whose fingers on the other sheet are already chosen',
         z3.And(strip(o, p0), V(proj(o, p0)), at(
             sb, 'sheet_chosen', sheet_of(o), p0)))],
        'unchoose_interside': [('a range already chosen', z3.And(
            V(y0), at(sb, 'interside_chosen', i, y0)))]}
    for m, cs in bad.items():
        f = t.func(eng, '%s.%s' % (SB, m))
        for nm, c in cs:
            st1 = st.copy()
            st1.assume(c)
            for s, r in eng.run(f, st1, [sb, iv, v]):
                if not isinstance(r, Exc):
                    eng.oblige(s, '%s: %s is refused' % (m, nm), False,
                               f.key)
            t.covers.append((m, 1))
    s0 = z3.Const('sheet', SHEETS)
    f = t.func(eng, SB + '.unchoose_sheet_area')
    A = z3.Function('area', PT, B)
    st1 = st.copy()
    st1.assume(sheet_in(s0), A(p0), at(sb, 'sheet_chosen', s0, p0))
    for s, r in eng.run(f, st1, [sb, Sym(eng.SC['sheetid'], s0),
                                 GeomV(2, lambda y: A(y))]):
        if not isinstance(r, Exc):
            eng.oblige(s, 'unchoose_sheet_area: an area already chosen is '
                       'refused', False, f.key)


def loop_state(L, st):
    """decision states carried by the loop"""
    out = []
    for v, e in L.entry.env.items():
        if v.startswith('__') or not isb(e):
            continue
        c = st.env.get(v)
        if isb(c):
            out.append((v, e, c))
    return out


def many(t):
    """choose_intersides / unchoose_intersides: any sequence of steps that
    is not refused"""
    wit = None
    for m in ('choose_intersides', 'unchoose_intersides'):
        eng, st, sb = setup(t)
        wit = S, w, p, x = witnesses(eng)
        V = z3.Function('v', SIDES, RS, B)
        D = z3.Function('choice.for', SIDES, B)
        k = z3.Const('k', SIDES)
        st.assume(z3.ForAll([k], z3.Implies(D(k), side_in(k))))
        ch = MapV(eng.SC['sideid'], lambda e: D(e),
                  lambda e: GeomV(1, lambda y: V(e, y)), 'choices')

        def cands(eng, L, st, k):
            out = []
            for v, e, c in loop_state(L, st):
                out += [('%s is consistent' % v, z3.And(quant(eng, c)))]
                g = []
                for f, key in FIELDS.items():
                    kk, y = (S, p) if key is SHEETS else (w, x)
                    a, b = at(e, f, kk, y), at(c, f, kk, y)
                    n = '%s.%s only %s' % (v, f, 'grows' if 'chosen' in f
                                           else 'shrinks')
                    out.append((n, z3.Implies(
                        a, b) if 'chosen' in f else z3.Implies(b, a)))
                    g.append(f)
                en = getattr(L.seq, 'enum', None)
                if en is not None and m == 'choose_intersides':
                    out.append(('what was handled is chosen', z3.Implies(
                        z3.And(D(w), en[2](w) < k, V(w, x)),
                        at(c, 'interside_chosen', w, x))))
                    out.append(('only what was asked for is chosen',
                                z3.Implies(at(c, 'interside_chosen', w, x),
                                           z3.Or(at(e, 'interside_chosen',
                                                    w, x), z3.And(
                                                        D(w), V(w, x))))))
                elif en is not None:
                    out.append(('what was handled is ruled out', z3.Implies(
                        z3.And(D(w), en[2](w) < k, V(w, x)), z3.Not(
                            at(c, 'interside_ok', w, x)))))
                    out.append(('only what was asked for is ruled out',
                                z3.Implies(z3.And(
                                    at(e, 'interside_ok', w, x), z3.Not(
                                        at(c, 'interside_ok', w, x))),
                                    z3.And(D(w), V(w, x)))))
            return out
        eng.candidates = cands
        f = t.func(eng, '%s.%s' % (SB, m))
        for s, r in t.outcomes(eng, f, st, [sb, ch], None, m,
                               may_raise=('AssertionError',)):
            if not result_sb(eng, s, r, m, f):
                continue
            same_model(eng, s, r, sb, m, f)
            consistent(eng, s, r, wit, m, f)
            s = s.copy()
            s.assume(side_in(w), *inter_facts(inter_of(w)))
            a, b = (lambda z, fl: at(z, fl, w, x)), None
            if m == 'choose_intersides':
                eng.oblige(s, m + ': exactly what was asked for is chosen',
                           a(r, 'interside_chosen') == z3.Or(
                               a(sb, 'interside_chosen'),
                               z3.And(D(w), V(w, x))), f.key)
            else:
                eng.oblige(s, m + ': exactly what was asked for is ruled '
                           'out', a(r, 'interside_ok') == z3.And(
                               a(sb, 'interside_ok'), z3.Not(
                                   z3.And(D(w), V(w, x)))), f.key)


def check_(t):
    """_check accepts only states with I1 - I4"""
    eng, st = engine(t)
    sb = state(eng, 'sb.')
    wit = S, w, p, x = witnesses(eng)
    st.assume(sheet_in(S), side_in(w), *inter_facts(inter_of(w)))
    A = lambda f, k, z: at(sb, f, k, z)
    facts = [
        (SHEETS, S, 'chosen sheet points are permitted', z3.Implies(
            A('sheet_chosen', S, p), A('sheet_ok', S, p))),
        (SIDES, w, 'chosen positions are permitted', z3.Implies(
            A('interside_chosen', w, x), A('interside_ok', w, x))),
        (SIDES, w, 'chosen positions are not permitted to the other side',
         z3.Implies(A('interside_chosen', w, x), z3.Not(A(
             'interside_ok', opp(w), x)))),
        (SIDES, w, 'no chosen sheet point lies on a finger permitted to '
         'the other side', z3.Not(z3.And(
             A('sheet_chosen', sheet_of(w), p), strip(w, p),
             A('interside_ok', opp(w), proj(w, p)))))]

    def cands(eng, L, st, k):
        en = getattr(L.seq, 'enum', None)
        if en is None or k is None:
            return []
        return [('visited: ' + nm, z3.Implies(en[2](key) < k, fact))
                for srt, key, nm, fact in facts
                if srt == en[0].ks.sort]
    eng.candidates = cands
    f = t.func(eng, SB + '._check')
    for s, r in t.outcomes(eng, f, st, [sb], None, '_check',
                           may_raise=('AssertionError',)):
        if isinstance(r, Exc):
            continue
        for srt, key, nm, fact in facts:
            eng.oblige(s, '_check: accepts only states where %s' % nm, fact,
                       f.key)


def accept(t):
    """_check raises nothing on a state with I1 - I4"""
    eng, st, sb = setup(t)
    w, p = z3.Const('w', SIDES), z3.Const('p', PT)
    A = lambda f, k, z: at(sb, f, k, z)
    st.assume(z3.ForAll([w, p], z3.Implies(side_in(w), z3.Not(z3.And(
        A('sheet_chosen', sheet_of(w), p), strip(w, p),
        A('interside_ok', opp(w), proj(w, p)))))))
    eng.candidates = lambda eng, L, st, k: []
    f = t.func(eng, SB + '._check')
    for s, r in t.outcomes(eng, f, st, [sb], None, '_check (consistent)'):
        pass


def dicts_of(L, st):
    """(name, entry map, current map) for the dicts a loop changes"""
    out = []
    for v, e in L.entry.env.items():
        if v.startswith('__') or not isinstance(e, Ref) or e.id not in L.mut:
            continue
        r0, r1 = L.entry.heap[e.id], st.heap[e.id]
        if isinstance(r0, AbsRec) and isinstance(r0.data, DictP):
            if r0.data.m.ks is not None and r1.data.m.ks is not None:
                out.append((v, r0.data.m, r1.data.m))
    return out


def create(t):
    eng, st = engine(t)
    eng.attr_hooks['exact_buffer'] = True
    wit = S, w, p, x = witnesses(eng)
    st.assume(sheet_in(S), side_in(w), *inter_facts(inter_of(w)))
    ka = z3.Const('k', INTERS)
    st.assume(z3.ForAll([ka], z3.And(inter_facts(ka))))
    sc = eng.SC
    rad = z3.Real('support_radius')
    st.assume(rad >= 1)
    t.assume_note('create_sheetbuild: params["support_radius"] >= 1')
    par = eng_params(eng, {'support_radius': Num('float', rad)})
    W = [w, opp(w)]
    SW = sheet_of(w)

    def cands(eng, L, st, k):
        en = getattr(L.seq, 'enum', None)
        out = []
        for v, m0, m1 in dicts_of(L, st):
            e = z3.Const('e!c', m0.ks.sort)
            out.append(('%s keeps its keys' % v, z3.ForAll(
                [e], bz(m1.dom(e)) == bz(m0.dom(e)))))
            if m0.ks is sc['sideid']:
                for a, b, n in ((W[0], W[1], 'w'), (W[1], W[0], 'opp w')):
                    pos = en[2](a) < k if en is not None else F_
                    out.append(('%s[%s] is narrowed by the other side when '
                                'visited' % (v, n), m1.get(a).mem(x) ==
                                z3.And(m0.get(a).mem(x), z3.Implies(
                                    pos, m0.get(b).mem(x)))))
                    y = z3.Real('y!c')
                    out.append(('%s[%s] is narrowed (all positions)' % (
                        v, n), z3.ForAll([y], m1.get(a).mem(y) == z3.And(
                            m0.get(a).mem(y), z3.Implies(
                                pos, m0.get(b).mem(y))))))
            elif m0.ks is sc['sheetid']:
                for a, n in ((S, 'S'), (SW, 'sheet of w')):
                    out.append(('%s[%s] only shrinks' % (v, n), z3.Implies(
                        m1.get(a).mem(p), m0.get(a).mem(p))))
                if en is not None and en[0].ks is sc['sideid']:
                    g = en[0].get(w)
                    if isinstance(g, GeomV) and g.dim == 1:
                        out.append(('visited fingers are not in ' + v,
                                    z3.Implies(en[2](w) < k, z3.Not(z3.And(
                                        m1.get(SW).mem(p), strip(w, p),
                                        g.mem(proj(w, p)))))))
        return out
    eng.candidates = cands
    f = t.func(eng, SBM + 'create_sheetbuild')
    sp = model(eng)
    for s, r in t.outcomes(eng, f, st, [sp, par], None,
                           'create_sheetbuild'):
        if not result_sb(eng, s, r, 'create_sheetbuild', f):
            continue
        eng.oblige(s, 'create_sheetbuild: the sheet model is carried over',
                   r.fields.get('sheetplex') is sp, f.key)
        consistent(eng, s, r, wit, 'create_sheetbuild', f)
        eng.oblige(s, 'create_sheetbuild: no chosen sheet point lies on a '
                   'finger permitted to the other side', z3.Not(z3.And(
                       at(r, 'sheet_chosen', SW, p), strip(w, p),
                       at(r, 'interside_ok', opp(w), proj(w, p)))), f.key)


def eng_params(eng, d):
    return ParamV(d)


class ParamV(HV):
    """the options: known entries; others arbitrary"""

    def __init__(self, d):
        self.d = d

    def h_item(self, eng, st, i):
        if i in self.d:
            yield st, self.d[i]
        else:
            yield st, Junk()

    def h_attr(self, eng, st, name):
        if name == 'get':
            def f(e, s, a, k):
                yield s, self.d.get(a[0], Junk())
            yield st, PyFn(f, 'get')
        else:
            raise Unsupported('options method ' + name)

    def h_isnone(self):
        return False


TARGETS = [('choose_interside', choose), ('unchoose_interside', unchoose),
           ('unchoose_sheet_area', unchoose_area), ('rejects', rejects),
           ('many', many), ('_check', check_), ('_check accepts', accept),
           ('create_sheetbuild', create)]
