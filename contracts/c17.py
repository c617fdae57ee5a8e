"""C17: every heuristic step only narrows what is permitted and keeps what is
chosen.

Each step of the pipeline is run on an arbitrary consistent decision state.
At an arbitrary sheet S with point p and joint side w with position x, the
returned state has everything chosen that was chosen and permits nothing that
was not permitted, the chosen areas of the sheets are still permitted, and the
model is the same object.  Steps may refuse by raising.
"""
from contracts.sl import *
from contracts.c16 import (quant, witnesses, isb, ParamV, loop_state,
                           result_sb)

LEVEL = 'proof'
STEPS = ['choose_obviously_irrelevant', 'remove_loose',
         'update_intersection_ok', 'update_sheet_ok',
         'heuristic_multi_inter_single_decisions', 'choose_the_ok_side',
         'single_fingers_random', 'clean_up_thin_ok_parts']
RAISES = True


def grows(f):
    return 'chosen' in f


def narrowing(sb, c, wit):
    """(field, formula) for: c only narrows sb"""
    S, w, p, x = wit
    out = []
    for f, key in FIELDS.items():
        k, y = (S, p) if key is SHEETS else (w, x)
        a, b = at(sb, f, k, y), at(c, f, k, y)
        out.append((f, z3.Implies(a, b) if grows(f) else z3.Implies(b, a)))
    return out


def keyed(c):
    out = []
    for f, key in FIELDS.items():
        e = z3.Const('e!' + f, key)
        m = sheet_in(e) if key is SHEETS else side_in(e)
        d = dom(c, f, e)
        if not z3.simplify(d).eq(z3.simplify(m)):
            out.append((f, z3.ForAll([e], z3.Implies(m, d))))
    return out


def candidates(sb, wit):
    S, w, p, x = wit

    def go(eng, L, st, k):
        out = []
        for v, e, c in loop_state(L, st):
            for f, g in narrowing(sb, c, wit):
                out.append(('%s.%s only narrows the state passed in' % (
                    v, f), g))
            for f, g in keyed(c):
                out.append(('%s.%s has every key' % (v, f), g))
            out.append((v + ': chosen sheet areas stay permitted',
                        z3.Implies(at(c, 'sheet_chosen', S, p),
                                   at(c, 'sheet_ok', S, p))))
        for v in L.live:
            g, g0 = st.env.get(v), L.entry.env.get(v)
            if not (isinstance(g, GeomV) and g.dim == 2 and
                    isinstance(g0, GeomV) and g0.dim == 2 and
                    z3.is_false(z3.simplify(bz(g0.mem(p))))):
                continue        # an area collected from nothing
            for u, s_ in L.entry.env.items():
                if isinstance(s_, Sym) and s_.sc is eng.SC['sheet'] and \
                        u not in L.live:
                    for b in [sb] + [c for _, _, c in loop_state(L, st)]:
                        out.append(('%s meets nothing chosen on %s' % (v, u),
                                    z3.Not(z3.And(
                                        bz(g.mem(p)), at(
                                            b, 'sheet_chosen', s_.e, p)))))
        for v, e in L.entry.env.items():
            c = st.env.get(v)
            if v.startswith('__') or not isinstance(e, MapV) or \
                    not isinstance(c, MapV) or e.ks is None or \
                    c.ks is not e.ks:
                continue
            key = {id(eng.SC['sheetid']): (S, p, 'sheet'),
                   id(eng.SC['sideid']): (w, x, 'interside')}.get(id(e.ks))
            if key is None:
                continue
            a, y, n = key
            u = z3.Const('e!' + v, e.ks.sort)
            out.append((v + ' keeps its keys', z3.ForAll([u], z3.Implies(
                bz(e.dom(u)), bz(c.dom(u))))))
            if not isinstance(c.get(a), GeomV):
                continue
            m, m0 = bz(c.get(a).mem(y)), bz(e.get(a).mem(y))
            out += [(v + ' only shrinks', z3.Implies(m, m0)),
                    (v + ' only grows', z3.Implies(m0, m)),
                    (v + ' permits nothing new', z3.Implies(
                        m, at(sb, n + '_ok', a, y))),
                    (v + ' keeps what is chosen', z3.Implies(
                        at(sb, n + '_chosen', a, y), m))]
        return out
    return go


# values of the clustering step -----------------------------------------

class SetP:
    """mutable set: an unknown collection of sheet ids of the model"""

    def __init__(self, elem, cond=None):
        self.elem = elem

    def h_attrref(self, eng, st, ref, name):
        if name in ('add', 'discard', 'update', 'remove'):
            def f(e, s, a, k):
                if name in ('add', 'update'):
                    v = a[0]
                    if name == 'update':
                        q_ = as_seq(e, s, v)
                        v = q_.get(z3.Int('any!%d' % next(L._ids))) \
                            if not isinstance(q_, CSeq) else (
                                q_.items[0] if q_.items else None)
                    if v is not None:
                        if not isinstance(v, Sym):
                            raise Unsupported('set element %r' % (v,))
                        p = s.heap[ref.id].data
                        if p.elem not in (None, v.sc):
                            raise Unsupported('set of mixed elements')
                        s.heap[ref.id] = AbsRec('set', SetP(v.sc))
                yield s, None
            yield st, PyFn(f, name)
            return
        raise Unsupported('set method ' + name)

    def h_seq(self, eng, st):
        if self.elem is None:
            return CSeq(())
        return arb_seq(eng, st, self.elem)

    def h_len(self, eng, st):
        return 0 if self.elem is None else nat(eng, st)

    def h_truth(self, eng, st):
        return False if self.elem is None else eng.fresh('any', B)

    def h_contains(self, eng, st, v):
        yield st, eng.fresh('any', B)

    def h_item(self, eng, st, i):
        yield st, Exc('TypeError', 'set item')

    def h_setref(self, eng, st, ref, i, v):
        yield st, Exc('TypeError', 'set item')

    def h_binref(self, eng, st, ref, op, other, inplace):
        raise Unsupported('set operator')
        yield

    def h_habs(self, cur, old):
        return SetShape(self.elem).join(cur or SetShape(old.elem))


class SetShape:
    def __init__(self, elem):
        self.elem = elem

    def __eq__(self, o):
        return isinstance(o, SetShape) and o.elem is self.elem

    def join(self, o):
        if self.elem is None:
            return o
        if o.elem is None or o.elem is self.elem:
            return self
        raise Unsupported('sets of different elements')

    def havoc(self, eng, st, name):
        return SetP(self.elem)


def nat(eng, st):
    n = eng.fresh('n', Z)
    st.assume(n >= 0)
    return Num('int', n)


def arb_seq(eng, st, sc):
    """arbitrary sequence of objects of the model"""
    n = eng.fresh('n', Z)
    j = z3.Int('j!%d' % next(L._ids))
    eng.ictx.append(j)
    e = eng.fresh('any', sc.sort)
    eng.ictx.pop()
    m = {SHEETS: sheet_in, SIDES: side_in, INTERS: in_model}.get(sc.sort)
    st.assume(n >= 0)
    if m is not None:
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), m(e)),
                            patterns=[e]))
    return FSeq(n, lambda i: Sym(sc, z3.substitute(e, (j, zi(i)))), None,
                'any')


class AnyDictP:
    """defaultdict of lists of joint sides: the lists are unknown"""

    def __init__(self, sc):
        self.sc = sc

    def h_item(self, eng, st, i):
        yield st, L.eng_alloc(st, arb_seq(eng, st, self.sc))

    def h_setref(self, eng, st, ref, i, v):
        yield st, None

    def h_attrref(self, eng, st, ref, name):
        raise Unsupported('defaultdict method ' + name)
        yield

    def h_contains(self, eng, st, v):
        yield st, eng.fresh('any', B)

    def h_len(self, eng, st):
        return nat(eng, st)

    def h_truth(self, eng, st):
        return eng.fresh('any', B)

    def h_habs(self, cur, old):
        return cur or AnyShape(self.sc)

    def h_binref(self, eng, st, ref, op, other, inplace):
        raise Unsupported('defaultdict operator')
        yield


class AnyShape:
    def __init__(self, sc):
        self.sc = sc

    def __eq__(self, o):
        return isinstance(o, AnyShape)

    def havoc(self, eng, st, name):
        return AnyDictP(self.sc)


CL = z3.DeclareSort('Cluster')


def c_clusters(eng, st, f, args, kw):
    """_find_interaction_clusters: arbitrary clusters, each a map from joints
    of the model to positions"""
    cid = eng.SC.setdefault('clusterid', Schema('cluster id', CL))
    din = z3.Function('cluster.exists', CL, B)
    has = z3.Function('cluster.has', CL, INTERS, B)
    rng = z3.Function('cluster.range', CL, INTERS, RS, B)
    c, k = z3.Const('c', CL), z3.Const('k', INTERS)
    st.assume(z3.ForAll([c, k], z3.Implies(has(c, k), in_model(k))))

    def get(c):
        return MapV(eng.SC['interid'], lambda k: has(c, k),
                    lambda k: GeomV(1, lambda x: rng(c, k, x)), 'cluster')
    yield st, st.alloc(AbsRec('dict', DictP(MapV(
        cid, lambda e: din(e), get, 'clusters'))))


def c_random(eng, st, f, args, kw):
    """random_min_max: some list of pairs of numbers"""
    n = eng.fresh('n', Z)
    st.assume(n >= 0)
    j = z3.Int('j!%d' % next(L._ids))
    eng.ictx.append(j)
    a, b = eng.fresh('a', RS), eng.fresh('b', RS)
    eng.ictx.pop()
    q_ = FSeq(n, lambda i: tuple(Num('float', z3.substitute(
        e, (j, zi(i)))) for e in (a, b)), None, 'spans')
    yield st, L.eng_alloc(st, q_)


def junk_ext(eng, st, f, args, kw):
    yield st, Junk()


def x_argmax(eng, st, f, args, kw):
    q_ = as_seq(eng, st, args[0]) if args else None
    if q_ is None:
        yield st, Junk()
        return
    k = eng.fresh('argmax', Z)
    n = zi(q_.n)
    for s, b in eng.split(st, n > 0):
        if b:
            s.assume(k >= 0, k < n)
            yield s, Num('int', k)
        else:
            yield s, Exc('ValueError', 'argmax of an empty sequence')


def x_sorted(eng, st, f, args, kw):
    """some rearrangement: a sequence of elements of the argument"""
    q_ = as_seq(eng, st, args[0])
    if q_ is None:
        yield st, Junk()
        return
    n = zi(q_.n)
    j = z3.Int('j!%d' % next(L._ids))
    eng.ictx.append(j)
    p = eng.fresh('perm', Z)
    eng.ictx.pop()
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        0 <= p, p < n)), patterns=[p]))
    yield st, L.eng_alloc(st, FSeq(n, lambda i: q_.get(
        z3.substitute(p, (j, zi(i)))), None, 'sorted'))


def x_defaultdict(eng, st, f, args, kw):
    yield st, st.alloc(AbsRec('defaultdict', AnyDictP(eng.SC['side'])))


def mk_set(eng, st, vs):
    sc = None
    for v in vs:
        if not isinstance(v, Sym):
            raise Unsupported('set element %r' % (v,))
        sc = v.sc
    yield st, st.alloc(AbsRec('set', SetP(sc)))


def set_of_seq(eng, st, q_):
    v = q_.get(z3.Int('any!%d' % next(L._ids)))
    if not isinstance(v, Sym):
        raise Unsupported('set element %r' % (v,))
    yield st, st.alloc(AbsRec('set', SetP(v.sc)))


def step_engine(t, name):
    eng, st = engine(t)
    eng.contracts[HEU + '_find_interactions'] = junk_ext
    eng.contracts[HEU + '_find_interaction_clusters'] = c_clusters
    eng.contracts[HEU + 'random_min_max'] = c_random
    eng.extra_ext.update({
        'numpy.random.RandomState': junk_ext, 'numpy.argmax': x_argmax,
        'numpy.ceil': junk_ext, 'numpy.floor': junk_ext,
        'builtins.sorted': x_sorted,
        'collections.defaultdict': x_defaultdict})
    eng.feas_qf = True
    eng.attr_hooks.update(make_set=mk_set, set_of_seq=set_of_seq)
    return eng, st


def step(name):
    def go(t):
        eng, st = step_engine(t, name)
        sb = state(eng, 'sb.')
        st.assume(*quant(eng, sb))
        wit = S, w, p, x = witnesses(eng)
        st.assume(sheet_in(S), side_in(w), *inter_facts(inter_of(w)))
        eng.candidates = candidates(sb, wit)
        f = t.func(eng, HEU + name)
        n = 0
        for s, r in t.outcomes(eng, f, st, [sb, ParamV({})], None, name,
                               may_raise=True):
            if isinstance(r, Exc):
                continue
            n += 1
            if not result_sb(eng, s, r, name, f):
                continue
            eng.oblige(s, name + ': the sheet model is carried over',
                       r.fields.get('sheetplex') is sb.fields['sheetplex'],
                       f.key)
            for fl, g in keyed(r):
                eng.oblige(s, '%s: %s covers every key of the model' % (
                    name, fl), g, f.key)
            for fl, g in narrowing(sb, r, wit):
                eng.oblige(s, '%s: %s' % (name, (
                    'nothing in %s is given up' if grows(fl) else
                    'nothing new is permitted in %s') % fl), g, f.key)
            eng.oblige(s, name + ': chosen sheet areas stay permitted',
                       z3.Implies(at(r, 'sheet_chosen', S, p),
                                  at(r, 'sheet_ok', S, p)), f.key)
        if n == 0:
            eng.oblige(st, name + ': normal completion is reachable', False,
                       f.key)
    return go


TARGETS = [(n, step(n)) for n in STEPS]
