from slu import *
from plycutter import heuristics as H

RULE = 'synthetic overlapping joint ranges in random order on models of 3 ' \
    'or 4 sheets: clusters against connected components; synthetic models ' \
    'with random permitted ranges: overlaps against strips made ' \
    'independently; maps of position sets: keys and values'
BOUNDS = 'up to 5 joints, 9 interactions, 12 map keys'
MIN_CASES = 60
KINDS = ['corner', 'bent', 'bent', 'U', 'cross', 'corner']


def ranges(rng, n=None, top=12):
    out = []
    for i in range(n or rng.choice([1, 1, 1, 2])):
        a = rng.randint(0, top)
        out.append([S(mpq(a, 2)), S(mpq(a + rng.choice([1, 1, 2, 4]), 2))])
    return out


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        kind = KINDS[k % len(KINDS)]
        if k % 4 == 0:
            yield {'op': 'find', 'spec': rmodel(rng, kind),
                   'ok': [ranges(rng, None, 60) if rng.random() < .6 else None
                          for i in range(10)]}
        elif k % 4 == 1:
            yield {'op': 'maps', 'a': {str(rng.randint(0, 4)): ranges(rng)
                                       for i in range(rng.randint(0, 3))},
                   'b': {str(rng.randint(0, 4)): ranges(rng)
                         for i in range(rng.randint(0, 3))}}
        else:
            n = rng.choice([1, 2, 3, 3, 4, 5, 7, 9])
            yield {'op': 'cluster', 'spec': rmodel(rng, 'bent'),
                   'ia': [[rng.randint(0, 9), rng.randint(0, 9), ranges(
                       rng, None, 16), ranges(rng, None, 16)]
                       for i in range(n)], 'both': rng.random() < .5,
                   'order': rng.randint(0, 5)}


def g1(r):
    return Geom1D([(Q(a), Q(b)) for a, b in r])


def tiles(m, cuts):
    """(key, elementary interval) pairs of a map key -> intervals"""
    out = set()
    for k, r in m.items():
        for i in range(len(cuts) - 1):
            mid = (cuts[i] + cuts[i + 1]) / 2
            if any(a < mid < b for a, b in r):
                out.add((k, i))
    return out


def c_maps(c):
    a, b = ({k: g1(v) for k, v in c[n].items()} for n in 'ab')
    A, B = ({k: iv(v) for k, v in m.items()} for m in (a, b))
    pa, pb = pyr.pmap(a), pyr.pmap(b)
    for nm, f, exp in (
            ('map_and', SB.map_and, {k: and1(A[k], B[k]) for k in A
                                     if k in B and and1(A[k], B[k])}),
            ('map_or', SB.map_or, {k: or1(A.get(k, []), B.get(k, []))
                                   for k in list(A) + list(B)})):
        r = f(pa, pb)
        if {k: iv(v) for k, v in r.items()} != exp:
            return '%s of %s and %s is %s' % (nm, A, B, {
                k: iv(v) for k, v in r.items()})
    return None


def c_cluster(c):
    sp = build(c['spec'])
    sides = sorted((s for s in sp.intersides()), key=lambda s: s.id)
    lists, want = {}, []
    for a, b, ra, rb in c['ia']:
        x = sides[a % len(sides)]
        others = [s for s in sides if s.sheet == x.sheet and
                  s.intersection != x.intersection]
        if not others:
            continue
        y = others[b % len(others)]
        ga, gb = g1(ra), g1(rb)
        want.append({x.intersection: iv(ga), y.intersection: iv(gb)})
        for p, q, u, v in ((x, y, ga, gb), (y, x, gb, ga)):
            lists.setdefault(p.intersection, []).append(H._Interaction(
                interside=p.id, range=u, other_interside=q.id,
                other_range=v))
            if not c['both']:
                break
    keys = sorted(lists)
    keys = keys[c['order'] % (len(keys) or 1):] + \
        keys[:c['order'] % (len(keys) or 1)]
    inter = H._Interactions(sheetplex=sp, by_intersection={
        k: lists[k] for k in keys})
    sb = Plain(sp)
    got = H._find_interaction_clusters(sb, inter)
    got = {k: {j: iv(g) for j, g in m.items()} for k, m in got.items()}
    return judge(want, got)


class Plain:
    """stands for the decision state, of which only the model is used"""

    def __init__(self, sp):
        self.sheetplex = sp


def judge(want, got):
    cuts = sorted({e for m in want + list(got.values()) for r in m.values()
                   for t in r for e in t})
    gt = {k: tiles(m, cuts) for k, m in got.items()}
    wt = [tiles(m, cuts) for m in want]
    for m, w in zip(want, wt):
        if not any(w <= g for g in gt.values()):
            return 'the overlapping ranges %s are not together in one of ' \
                'the clusters %s' % (show(m), show(got))
    ks = sorted(gt)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            if gt[a] & gt[b]:
                return 'clusters %s and %s share a position: %s' % (
                    a, b, show(got))
    every = set().union(*wt) if wt else set()
    for k, g in gt.items():
        if g - every:
            return 'cluster %s has positions of no overlap: %s' % (
                k, show(got))
    return None


def show(m):
    if isinstance(m, dict):
        return {k: show(v) for k, v in m.items()}
    if isinstance(m, (list, tuple)):
        return [show(x) for x in m]
    return str(m)


def shadow(side, g):
    out = []
    for pl in g.polygons():
        ds = [p[0] * side.direction[0] + p[1] * side.direction[1] -
              side.origin_offset for p in pl.exterior()]
        out.append((min(ds), max(ds)))
    return norm1(out)


def c_find(c):
    sp = build(c['spec'])
    sb = SB.create_sheetbuild(sp, PARAMS)
    sides = sorted(sp.intersides(), key=lambda s: s.id)
    for s, r in zip(sides, c['ok']):
        if r is not None:
            v = Geom1D(and1(iv(sb.interside_ok[s.id]), norm1(
                [(Q(a), Q(b)) for a, b in r])))
            sb = sb.transform(['interside_ok', s.id], lambda old, v=v: v)
    got = H._find_interactions(sb)
    if got.sheetplex is not sp:
        return 'the interactions are of another sheet model'
    have = {}
    for k, l in got.by_intersection.items():
        for x in l:
            if sp.interside(x.interside).intersection != k:
                return 'the interaction of %s is listed for joint %s' % (
                    x.interside, k)
            have.setdefault((x.interside, x.other_interside), []).append(x)
    for a in sides:
        for b in sides:
            if a.id == b.id or a.sheet != b.sheet:
                continue
            g = strip2(a, iv(sb.interside_ok[a.id])) & \
                strip2(b, iv(sb.interside_ok[b.id]))
            l = have.pop((a.id, b.id), [])
            if g.is_empty():
                if l:
                    return '%s and %s do not overlap but are recorded' % (
                        a.id, b.id)
                continue
            if not l:
                return 'the overlap of %s and %s is not recorded for %s' % (
                    a.id, b.id, a.intersection)
            for x in l:
                if iv(x.range) != shadow(a, g) or \
                        iv(x.other_range) != shadow(b, g):
                    return 'the overlap of %s and %s is recorded as %s, %s' \
                        ' instead of %s, %s' % (
                            a.id, b.id, show(iv(x.range)),
                            show(iv(x.other_range)), show(shadow(a, g)),
                            show(shadow(b, g)))
    if have:
        return 'recorded between sides of different sheets: %s' % (
            sorted(have),)
    want = []
    for l in got.by_intersection.values():
        for x in l:
            want.append({x.interside[0]: iv(x.range),
                         x.other_interside[0]: iv(x.other_range)})
    cl = H._find_interaction_clusters(sb, got)
    return judge(want, {k: {j: iv(g) for j, g in m.items()}
                        for k, m in cl.items()})


def check(c):
    return {'maps': c_maps, 'cluster': c_cluster, 'find': c_find}[c['op']](c)


def nontrivial(c):
    return c['op'] != 'maps' or (c['a'] and c['b'])


def shrink(c):
    if c['op'] == 'cluster':
        for i in range(len(c['ia'])):
            yield dict(c, ia=c['ia'][:i] + c['ia'][i + 1:])
