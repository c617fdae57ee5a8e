"""C22: overlapping joints are grouped into disjoint clusters.

map_and / map_or combine maps of position sets key by key.
_find_interaction_clusters: for an arbitrary interaction w, joint K and
position x: the ranges of w end up together in one cluster; no two clusters
have x on K; what a cluster has was in the range of some interaction.
_find_interactions: exactly the overlaps of two joints' permitted fingers on
a sheet are recorded, with both ranges, for both joints.
"""
from contracts.sl import *
from contracts.c17 import AnyDictP, AnyShape

LEVEL = 'proof'
CID = z3.DeclareSort('ClusterId')
cid_of = z3.Function('cluster.id', Z, CID)
num_of = z3.Function('number', CID, Z)
IA = z3.DeclareSort('Interaction')
ia_side = [z3.Function(n, IA, SIDES) for n in ('ia.side', 'ia.other')]
ia_rng = [z3.Function(n, IA, RS, B) for n in ('ia.range', 'ia.other.range')]
ia_in = z3.Function('ia.listed', IA, B)
src = z3.Function('in.a.range', INTERS, RS, B)
MAPS = [SBM + 'map_and', SBM + 'map_or']


def geom_map(eng, name):
    d = z3.Function(name + '.dom', INTERS, B)
    g = z3.Function(name, INTERS, RS, B)
    return MapV(eng.SC['interid'], lambda k: d(k),
                lambda k: GeomV(1, lambda x: g(k, x)), name)


def has(m, k, x):
    """position x on joint k is in the map"""
    if m.ks is None:
        return F_
    g = m.get(k)
    if not isinstance(g, GeomV):
        raise Unsupported('value of a map')
    return z3.And(bz(m.dom(k)), bz(g.mem(x)))


def maps(t):
    eng, st = engine(t)
    K, x = z3.Const('K', INTERS), z3.Real('x')
    m1, m2 = geom_map(eng, 'm1'), geom_map(eng, 'm2')
    v1, v2 = (lambda y: has(m1, K, y)), (lambda y: has(m2, K, y))
    y = z3.Real('y')
    f = t.func(eng, MAPS[0])
    for a, b in ((m1, m2), (NOMAP, m2), (m1, NOMAP)):
        for s, r in t.outcomes(eng, f, st.copy(), [a, b], None, 'map_and'):
            r = as_map(eng, s, r)
            both = lambda z: z3.And(has(a, K, z), has(b, K, z))
            d = F_ if r.ks is None else bz(r.dom(K))
            eng.oblige(s, 'map_and: the keys with a common position',
                       d == z3.Exists([y], both(y)), f.key)
            eng.oblige(s, 'map_and: the common positions of each key',
                       has(r, K, x) == both(x), f.key)
    f = t.func(eng, MAPS[1])
    for a, b in ((m1, m2), (NOMAP, m2), (m1, NOMAP)):
        def cands(eng, L_, st, k):
            en = getattr(L_.seq, 'enum', None)
            if k is None or en is None:
                return
            pos = en[2]
            for v, e in L_.entry.env.items():
                c = st.env.get(v)
                if v.startswith('__') or not isinstance(e, MapV) or \
                        not isinstance(c, MapV):
                    continue
                d = F_ if c.ks is None else bz(c.dom(K))
                d0 = F_ if e.ks is None else bz(e.dom(K))
                done = z3.And(bz(b.dom(K)), pos(K) < k)
                yield v + ': has the keys so far', d == z3.Or(d0, done)
                yield v + ': has the positions so far', has(c, K, x) == \
                    z3.Or(has(e, K, x), z3.And(done, has(b, K, x)))
        eng.candidates = cands
        for s, r in t.outcomes(eng, f, st.copy(), [a, b], None, 'map_or'):
            r = as_map(eng, s, r)
            dm = lambda m: F_ if m.ks is None else bz(m.dom(K))
            eng.oblige(s, 'map_or: the keys of either', dm(r) == z3.Or(
                dm(a), dm(b)), f.key)
            eng.oblige(s, 'map_or: the positions of either for each key',
                       has(r, K, x) == z3.Or(has(a, K, x), has(b, K, x)),
                       f.key)


def c_map_and(eng, st, f, args, kw):
    a, b = (as_map(eng, st, v) for v in args)
    if a.ks is None or b.ks is None:
        yield st, NOMAP
        return

    def both(k, z):
        return z3.And(has(a, k, z), has(b, k, z))

    def d(k):
        y = z3.Real('y!%d' % next(L._ids))
        return z3.Exists([y], both(k, y))
    yield st, MapV(a.ks, d, lambda k: GeomV(1, lambda z: both(k, z)), 'and')


def c_map_or(eng, st, f, args, kw):
    a, b = (as_map(eng, st, v) for v in args)
    if a.ks is None or b.ks is None:
        yield st, (b if a.ks is None else a)
        return
    yield st, MapV(a.ks, lambda k: z3.Or(bz(a.dom(k)), bz(b.dom(k))),
                   lambda k: GeomV(1, lambda z: z3.Or(
                       has(a, k, z), has(b, k, z))), 'or')


def joint_of(w, i):
    return inter_of(ia_side[i](w))


def listed(w):
    """an interaction: overlapping ranges of two joints on one sheet"""
    a, b = (s(w) for s in ia_side)
    y = z3.Real('y')
    return z3.And(side_in(a), side_in(b), a != b, sheet_of(a) == sheet_of(b),
                  inter_of(a) != inter_of(b),
                  z3.Exists([y], ia_rng[0](w, y)),
                  z3.Exists([y], ia_rng[1](w, y)))


def w_map(w):
    """position x on joint k is in one of the ranges of interaction w"""
    def f(k, x):
        return z3.Or([z3.And(k == joint_of(w, i), ia_rng[i](w, x))
                      for i in (0, 1)])
    return f


def strmod(eng, st, a, b):
    if a.count('%') == 1 and ('%d' in a or '%s' in a):
        v = b[0] if isinstance(b, tuple) and len(b) == 1 else b
        x = L.lift(v)
        if isinstance(x, Num) or isinstance(x, int):
            return Sym(eng.SC['clusterid'], cid_of(zi(x.e if isinstance(
                x, Num) else x)))
    return Opaque('text')


def fstring(eng, st, n):
    import ast
    fv = [v for v in n.values if isinstance(v, ast.FormattedValue)]
    if len(fv) == 1 and fv[0].format_spec is None:
        for s, v in eng.ev(fv[0].value, st):
            yield s, (v if isinstance(v, Exc)
                      else strmod(eng, s, '%d', v))
        return
    yield st, Opaque('text')


def clusters(t):
    eng, st = engine(t)
    eng.feas_rlimit = 15000
    sc = eng.SC
    sc['clusterid'] = Schema('cluster id', CID)
    eng.contracts[MAPS[0]] = c_map_and
    eng.contracts[MAPS[1]] = c_map_or
    eng.attr_hooks.update(strmod=strmod, fstring=fstring)
    n = z3.Int('n')
    st.assume(z3.ForAll([n], num_of(cid_of(n)) == n, patterns=[cid_of(n)]))
    sia = Schema('interaction', IA, eng.lookup_func(HEU + '_Interaction'))
    sia.attrs.update(
        interside=lambda e, s, o: Sym(sc['sideid'], ia_side[0](o.e)),
        other_interside=lambda e, s, o: Sym(sc['sideid'], ia_side[1](o.e)),
        range=lambda e, s, o: GeomV(1, lambda x: ia_rng[0](o.e, x)),
        other_range=lambda e, s, o: GeomV(1, lambda x: ia_rng[1](o.e, x)))
    # the interactions: for each joint a list
    cnt = z3.Function('interactions', INTERS, Z)
    item = z3.Function('interaction', INTERS, Z, IA)
    listd = z3.Function('has.interactions', INTERS, B)
    at_k, at_i = z3.Function('listed.at', IA, INTERS), z3.Function(
        'listed.index', IA, Z)
    W, K, x = z3.Const('W', IA), z3.Const('K', INTERS), z3.Real('x')
    y, z = z3.Reals('y z')
    k, j, w = z3.Const('k', INTERS), z3.Int('j'), z3.Const('w', IA)
    st.assume(
        z3.ForAll([k], z3.And(cnt(k) >= 0, *inter_facts(k)),
                  patterns=[cnt(k)]),
        z3.ForAll([k, j], z3.Implies(
            z3.And(listd(k), 0 <= j, j < cnt(k)), ia_in(item(k, j))),
            patterns=[item(k, j)]),
        z3.ForAll([w], z3.Implies(ia_in(w), z3.And(
            listed(w), src(joint_of(w, 0), x) if False else True)),
            patterns=[ia_in(w)]),
        # the fixed interaction is one of them
        listd(at_k(W)), 0 <= at_i(W), at_i(W) < cnt(at_k(W)),
        item(at_k(W), at_i(W)) == W,
        ia_rng[0](W, y), ia_rng[1](W, z),
        z3.ForAll([w], z3.Implies(z3.And(ia_in(w), w_map(w)(K, x)),
                                  src(K, x)), patterns=[ia_in(w)]))
    J0, J1 = joint_of(W, 0), joint_of(W, 1)

    def get(kk):
        return SeqV(FSeq(cnt(kk), lambda i: Sym(sia, item(kk, zi(i))), None,
                         'interactions'), 'seq')
    by = MapV(sc['interid'], lambda kk: listd(kk), get, 'by_intersection')
    rec = RecV(eng.lookup_func(HEU + '_Interactions'), {
        'sheetplex': None, 'by_intersection': by})
    sb = state(eng, 'sb.')
    rec.fields['sheetplex'] = sb.fields['sheetplex']
    outer = []

    def din(m, c):
        return F_ if m.ks is None else bz(m.dom(c))

    def mem(m, c, kk, xx):
        """cluster c has position xx of joint kk"""
        if m.ks is None:
            return F_
        return has(m.get(c), kk, xx)

    c, d = z3.Consts('c d', CID)

    def live(m, c, kk, xx):
        return z3.And(din(m, c), mem(m, c, kk, xx))

    def raw(vs, *ts):
        """a pattern of these terms, if they are plain applications"""
        vs = [v.get_id() for v in vs]
        for t_ in ts:
            if not (z3.is_app(t_) and t_.decl().kind() ==
                    z3.Z3_OP_UNINTERPRETED and t_.num_args() and
                    any(a.get_id() in vs for a in t_.children())):
                return {}
        return {'patterns': [z3.MultiPattern(*ts) if len(ts) > 1
                             else ts[0]]}

    def domp(m, vs):
        if m.ks is None:
            return {}
        return raw(vs, *[din(m, v) for v in vs])

    def unique(m, kk, xx, but=None):
        e = c == d
        if but is not None:
            e = z3.Or(e, but(c, d))
        return z3.ForAll([c, d], z3.Implies(z3.And(
            live(m, c, kk, xx), live(m, d, kk, xx)), e), **domp(m, [c, d]))

    def together(m):
        return z3.Exists([c], z3.And(din(m, c), mem(m, c, J0, y),
                                     mem(m, c, J1, z)))

    def sourced(m):
        return z3.ForAll([c], z3.Implies(live(m, c, K, x), src(K, x)),
                         **domp(m, [c]))

    def dicts(st_):
        for v, r in st_.env.items():
            if v.startswith('__') or not isinstance(r, Ref):
                continue
            h = st_.heap.get(r.id)
            if isinstance(h, AbsRec) and isinstance(h.data, DictP):
                m = h.data.m
                if m.ks is None or m.ks is sc['clusterid']:
                    yield v, m

    def idlists(st_):
        for v, r in st_.env.items():
            if v.startswith('__') or not isinstance(r, (Ref, SeqV)) or \
                    not islistlike(st_, r):
                continue
            q_ = as_seq(eng, st_, r)
            if isinstance(q_, CSeq) and q_.n == 0:
                yield v, q_
                continue
            try:
                e = q_.get(z3.Int('probe'))
            except Unsupported:
                continue
            if isinstance(e, Sym) and e.sc is sc['clusterid']:
                yield v, q_

    def some(q_, lo, hi, g):
        """an index in [lo, hi) whose element satisfies g"""
        i = z3.Int('i!%d' % next(L._ids))
        return z3.Exists([i], z3.And(zi(lo) <= i, i < zi(hi),
                                     g(q_.get(i).e)))

    pts = ((K, x), (J0, y), (J1, z))

    def cands(eng, L_, st, k):
        kk = z3.IntVal(0) if k is None else k
        en = getattr(L_.seq, 'enum', None)
        D = list(dicts(st))
        entry_d = dict(dicts(L_.entry))
        for v, m in D:
            yield v + ': no position in two clusters', z3.And(
                [unique(m, *p) for p in pts])
            yield v + ': only positions of interactions', sourced(m)
            if v in entry_d:
                yield v + ': the fixed interaction stays in one cluster', \
                    z3.Implies(together(entry_d[v]), together(m))
            for u, nv in st.env.items():
                lv = L.lift(nv) if isinstance(nv, (int, Num)) else None
                if u.startswith('__') or lv is None or isinstance(lv, X):
                    continue
                ne = zi(lv.e if isinstance(lv, Num) else lv)
                yield '%s: ids numbered below %s' % (v, u), z3.ForAll(
                    [c], z3.Implies(din(m, c), num_of(c) < ne),
                    **domp(m, [c]))
        if en is not None and en[0].ks is sc['interid'] and \
                k is not None:
            outer.append((en, L_))
            for v, m in D:
                yield v + ': the fixed interaction is in one cluster once ' \
                    'its joint is done', z3.Implies(en[2](at_k(W)) < kk,
                                                    together(m))
            return
        # the list of interactions of one joint
        el = None
        if isinstance(L_.seq, FSeq) and en is None:
            try:
                el = L_.seq.get(z3.Int('probe'))
            except Unsupported:
                el = None
        if isinstance(el, Sym) and el.sc is sia:
            for en2, L2 in outer[-1:]:
                # the current joint
                for i in range(1):
                    cur = el.e.arg(0)
                    for v, m in D:
                        yield v + ': the fixed interaction is in one ' \
                            'cluster once it is done', z3.Implies(z3.Or(
                                en2[2](at_k(W)) < en2[2](cur), z3.And(
                                    at_k(W) == cur, at_i(W) < kk)),
                                together(m))
            return
        if en is not None and en[0].ks is sc['clusterid']:
            # looking for the clusters that meet cmap
            pos, m = en[2], en[0]
            for v, q_ in idlists(st):
                ln = zi(q_.n)
                i, i2 = z3.Ints('i i2')
                if isinstance(q_, CSeq):
                    e = lambda a: None
                else:
                    e = lambda a: q_.get(a).e
                if e(i) is not None:
                    yield v + ': clusters seen', z3.ForAll([i], z3.Implies(
                        z3.And(0 <= i, i < ln), z3.And(
                            din(m, e(i)), pos(e(i)) < kk)),
                        **raw([i], e(i)))
                    yield v + ': clusters in order', z3.ForAll(
                        [i, i2], z3.Implies(z3.And(
                            0 <= i, i < i2, i2 < ln),
                            pos(e(i)) < pos(e(i2))), **raw([i, i2], e(i), e(i2)))
                for u, cm in st.env.items():
                    if u.startswith('__') or not isinstance(cm, MapV) or \
                            cm.ks is not sc['interid']:
                        continue
                    for nm, p in zip(('K', 'J0', 'J1'), pts):
                        one = z3.And(live(m, c, *p), has(cm, *p),
                                     pos(c) < kk)
                        yield '%s: has every cluster that meets %s (%s)' % (
                            v, u, nm), z3.ForAll([c], z3.Implies(
                                one, F_ if e(i) is None else some(
                                    q_, 0, ln, lambda t_: t_ == c)),
                                **domp(m, [c]))
            return
        if isinstance(el, Sym) and el.sc is sc['clusterid']:
            # merging the clusters of a list
            q_ = L_.seq
            ln = zi(q_.n)
            for v, m in D:
                i, i2 = z3.Ints('i i2')
                e = lambda a: q_.get(a).e
                yield v + ': clusters to merge exist', z3.ForAll(
                    [i], z3.Implies(z3.And(kk <= i, i < ln), din(m, e(i))),
                    **raw([i], e(i)))
                for u, q2 in idlists(st):
                    if isinstance(q2, CSeq) or q2 is q_:
                        continue
                    b0 = q2.get(z3.IntVal(0)).e
                    yield '%s: the first of %s exists' % (v, u), din(m, b0)
                    yield v + ': no position in two clusters, but in ' \
                        'those to merge', z3.And([unique(
                            m, *p, but=lambda c, d: z3.Or(
                                z3.And(c == b0, some(
                                    q_, kk, ln, lambda t_: t_ == d)),
                                z3.And(d == b0, some(
                                    q_, kk, ln, lambda t_: t_ == c))))
                            for p in pts])
                    for nm, p in zip(('K', 'J0', 'J1'), pts):
                        yield '%s: the first of %s keeps %s' % (
                            v, u, nm), z3.Implies(
                                mem(entry_d[v], b0, *p), mem(m, b0, *p)) \
                            if v in entry_d else F_
    eng.candidates = cands
    f = t.func(eng, HEU + '_find_interaction_clusters')
    nm = '_find_interaction_clusters'
    for s, v in t.outcomes(eng, f, st, [sb, rec]):
        m = as_map(eng, s, v)
        eng.oblige(s, nm + ': the ranges of an interaction are together in '
                   'one cluster', together(m), f.key)
        C, D_ = z3.Consts('C D', CID)
        eng.oblige(s, nm + ': no position is in two clusters', z3.Implies(
            z3.And(live(m, C, K, x), live(m, D_, K, x)), C == D_), f.key)
        eng.oblige(s, nm + ': a cluster has only positions of interactions',
                   z3.Implies(live(m, C, K, x), src(K, x)), f.key)


# ------------------------------------------------- finding the overlaps

class MultiP:
    """payload of the map joint -> list of interactions: which pairs of sides
    (a, b) have an interaction with interside a and other side b in the list
    of joint k.  What the interaction says is checked when it is added."""
    dim = None

    def __init__(self, rec, add):
        self.rec, self.add = rec, add

    def h_itemref(self, eng, st, ref, i):
        if not isinstance(i, Sym) or i.sc is not eng.SC['interid']:
            eng.oblige(st, 'the list is that of a joint', False, '')
            raise Unsupported('key %r of the interactions' % (i,))
        yield st, Handle(ref, i.e)

    def h_attrref(self, eng, st, ref, name):
        if name == 'setdefault':
            def f(e, s, a, k):
                yield from self.h_itemref(e, s, ref, a[0])
            yield st, PyFn(f, name)
            return
        raise Unsupported('defaultdict method ' + name)

    def h_habs(self, cur, old):
        return MultiShape(self.add)


class MultiShape:
    def __init__(self, add):
        self.add = add

    def __eq__(self, o):
        return isinstance(o, MultiShape)

    def join(self, o):
        return self

    def havoc(self, eng, st, name):
        f = z3.Function('recorded!%d' % next(L._ids), INTERS, SIDES, SIDES, B)
        return MultiP(lambda k, a, b: f(k, a, b), self.add)


class Handle(HV):
    def __init__(self, ref, k):
        self.ref, self.k = ref, k

    def h_attr(self, eng, st, name):
        if name != 'append':
            raise Unsupported('method %s of a list of interactions' % name)

        def f(e, s, a, kw):
            p = s.heap[self.ref.id].data
            x, y = p.add(e, s, self.k, a[0])
            old, k0 = p.rec, self.k
            s.heap[self.ref.id] = AbsRec('defaultdict', MultiP(
                lambda k, u, v: z3.Or(old(k, u, v), z3.And(
                    k == k0, u == x, v == y)), p.add))
            yield s, None
        yield st, PyFn(f, 'append')


def c_shadow(eng, st, f, args, kw):
    """InterSide.project_to_1d: the positions of the points (C15)"""
    s, g = args[0], args[1] if len(args) > 1 else kw['geom2d']
    if not isinstance(g, GeomV) or g.dim != 2:
        raise Unsupported('arguments of project_to_1d')
    e = s.e

    def mem(x):
        p = z3.Const('p!%d' % next(L._ids), PT)
        return z3.Exists([p], z3.And(g.mem(p), proj(e, p) == x))
    yield st, GeomV(1, mem)


def interactions(t):
    eng, st = engine(t)
    eng.feas_rlimit = 15000
    sc = eng.SC
    sb = state(eng, 'sb.')
    sp = sb.fields['sheetplex']
    A, B_ = z3.Consts('A B', SIDES)
    P = z3.Const('P', PT)
    st.assume(*[z3.And(*inter_facts(inter_of(s))) for s in (A, B_)])
    permitted = lambda s, p: z3.And(strip(s, p), at(
        sb, 'interside_ok', s, proj(s, p)))
    over = lambda a, b, p: z3.And(permitted(a, p), permitted(b, p))
    nm = '_find_interactions'
    sheets_enum, side_enums = [], []
    sheets = sp.fields['sheets']
    real = sheets.enum

    def enum(e, s):
        r = real(e, s)
        sheets_enum.append(r)
        return r
    sheets.enum = enum

    def sides(eng, st, f, args, kw):
        sh = args[1] if len(args) > 1 else kw.get('sheet_id')
        if sh is None:
            yield from c_intersides(eng, st, f, args, kw)
            return
        for s, v in c_intersides(eng, st, f, args, kw):
            _, at_, pos = v.seq.enum
            side_enums.append((sh.e, at_, pos, zi(v.seq.n)))
            yield s, v
    eng.contracts[SP + 'SheetPlex.intersides'] = sides
    eng.contracts[SP + 'InterSide.project_to_1d'] = c_shadow
    key = HEU + '_find_interactions'

    def add(eng, st, k, v):
        """an interaction v is added to the list of joint k"""
        fl = v.fields if isinstance(v, RecV) else {}
        a, b = fl.get('interside'), fl.get('other_interside')
        ra, rb = fl.get('range'), fl.get('other_range')
        ok = all(isinstance(x, Sym) and x.sc is sc['sideid'] for x in (a, b)
                 ) and all(isinstance(x, GeomV) and x.dim == 1
                           for x in (ra, rb))
        eng.oblige(st, nm + ': what is recorded names two sides and their '
                   'ranges', ok, key)
        if not ok:
            raise Unsupported('interaction %r' % (v,))
        a, b = a.e, b.e
        st.assume(*inter_facts(inter_of(a)), *inter_facts(inter_of(b)))
        eng.oblige(st, nm + ': it is recorded for the joint of its side',
                   k == inter_of(a), key)
        eng.oblige(st, nm + ': the sides are different sides of the model on '
                   'one sheet', z3.And(side_in(a), side_in(b), a != b,
                                       sheet_of(a) == sheet_of(b)), key)
        eng.oblige(st, nm + ': the sides belong to different joints',
                   inter_of(a) != inter_of(b), key)
        p, q_ = z3.Consts('p q', PT)
        eng.oblige(st, nm + ': the permitted fingers of the sides overlap',
                   z3.Exists([p], over(a, b, p)), key)
        x = z3.Real('x')
        for s, r, w in ((a, ra, 'range'), (b, rb, 'other_range')):
            eng.oblige(st, '%s: %s covers the overlap' % (nm, w), z3.Implies(
                over(a, b, q_), bz(r.mem(proj(s, q_)))), key)
            eng.oblige(st, '%s: %s has nothing but the overlap' % (nm, w),
                       z3.Implies(bz(r.mem(x)), z3.Exists([p], z3.And(
                           over(a, b, p), proj(s, p) == x))), key)
        return a, b

    def dflt(eng, st, f, args, kw):
        yield st, st.alloc(AbsRec('defaultdict', MultiP(
            lambda k, a, b: F_, add)))
    eng.extra_ext['collections.defaultdict'] = dflt
    pair = z3.And(A != B_, side_in(A), side_in(B_),
                  sheet_of(A) == sheet_of(B_), over(A, B_, P))

    def complete(m, seen):
        return z3.Implies(z3.And(pair, seen), z3.And(
            m.rec(inter_of(A), A, B_), m.rec(inter_of(B_), B_, A)))

    def cands(eng, L_, st, k):
        kk = z3.IntVal(0) if k is None else k
        for v, r in st.env.items():
            if v.startswith('__') or not isinstance(r, Ref) or not                     isinstance(st.heap.get(r.id), AbsRec) or not isinstance(
                        st.heap[r.id].data, MultiP):
                continue
            m = st.heap[r.id].data
            for n_, at_, ps in sheets_enum[-1:]:
                sa = ps(sheet_of(A))
                yield v + ': has the overlaps on the sheets so far', \
                    complete(m, sa < kk)
                for sid, at2, pos, n2 in side_enums[-1:]:
                    before = sa < ps(sid)
                    here = sheet_of(A) == sid
                    pa, pb = pos(A), pos(B_)
                    lo = z3.If(pa < pb, pa, pb)
                    hi = z3.If(pa < pb, pb, pa)
                    idx = [('%s' % u, zi(y.e if isinstance(y, Num) else y))
                           for u, y in L_.entry.env.items()
                           if not u.startswith('__') and (
                               isinstance(y, int) and y is not True and
                               y is not False or isinstance(y, Num) and
                               y.kind == 'int')]
                    idx += [('%s' % u, pos(y.e)) for u, y in
                            L_.entry.env.items() if isinstance(y, Sym) and
                            y.sc is sc['side']]
                    yield v + ': has the overlaps on the sheets before', \
                        complete(m, before)
                    yield v + ': has the overlaps with the sides so far', \
                        complete(m, z3.Or(before, z3.And(here, lo < kk)))
                    yield v + ': has the overlaps among the sides so far', \
                        complete(m, z3.Or(before, z3.And(here, hi < kk)))
                    for u, i in idx:
                        yield '%s: has the overlaps with the sides before ' \
                            '%s' % (v, u), complete(m, z3.Or(
                                before, z3.And(here, lo < i)))
                        yield '%s: has the overlaps with %s and the ' \
                            'following ones so far' % (v, u), complete(
                                m, z3.Or(before, z3.And(here, z3.Or(
                                    lo < i, z3.And(lo == i, hi <
                                                   i + 1 + kk)))))
                        yield '%s: has the overlaps with %s and all ones so '\
                            'far' % (v, u), complete(
                                m, z3.Or(before, z3.And(here, z3.Or(
                                    lo < i, z3.And(lo == i, hi < kk)))))
                        yield '%s: has the overlaps with %s and the earlier '\
                            'ones so far' % (v, u), complete(
                                m, z3.Or(before, z3.And(here, z3.Or(
                                    hi < i, z3.And(hi == i, lo < kk)))))
    eng.candidates = cands
    f = t.func(eng, key)
    n = 0
    for s, v in t.outcomes(eng, f, st, [sb]):
        n += 1
        fl = v.fields if isinstance(v, RecV) else {}
        r = fl.get('by_intersection')
        m = s.heap[r.id].data if isinstance(r, Ref) and isinstance(
            s.heap.get(r.id), AbsRec) else None
        if not isinstance(m, MultiP):
            eng.oblige(s, nm + ': returns the interactions', False, key)
            continue
        eng.oblige(s, nm + ': the sheet model is carried over',
                   fl.get('sheetplex') is sp, key)
        eng.oblige(s, nm + ': overlapping permitted fingers of two joints on '
                   'a sheet are recorded for both joints',
                   complete(m, z3.BoolVal(True)), key)
    if n == 0:
        eng.oblige(st, nm + ': returns', False, key)


TARGETS = [('map_and, map_or', maps),
           ('_find_interaction_clusters', clusters),
           ('_find_interactions', interactions)]
