"""exact synthetic sheet models for the set-level properties"""
from util import *
import numpy as np
import pyrsistent as pyr
from plycutter.sheetplex import SheetPlex, Sheet, Intersection, InterSide
from plycutter.geometry.geom2d import Geom2D
from plycutter.geometry.geom1d import Geom1D
from plycutter import sheetbuild as SB

PYTH = [(1, 0), (mpq(3, 5), mpq(4, 5)), (0, 1), (mpq(-4, 5), mpq(3, 5)),
        (-1, 0), (mpq(5, 13), mpq(-12, 13))]


def rect(a, b):
    return Geom2D.polygon([(a[0], a[1]), (a[0], b[1]), (b[0], b[1]),
                           (b[0], a[1])], reorient=True)


def gpoly(pts):
    return Geom2D.polygon([P(p) for p in pts], reorient=True)


def rot(p, r):
    c, s = r
    return (c * p[0] - s * p[1], s * p[0] + c * p[1])


def build(spec):
    """spec: list of {'a': axis, 'o': offset, 't': thickness, 'lo','hi': the
    sheet's extent in the other two axes, 'r': index into PYTH, 'cut': list
    of rectangles [lo, hi] cut out}

    Sheet i occupies [o - t, o] on its axis.  Its faces are its outline minus
    the strips of the joints (one face) and the outline (other face)."""
    sheets, geo = {}, {}
    for i, s in enumerate(spec):
        a = s['a']
        ax = [x for x in range(3) if x != a]
        o, t = mpq(s['o']), mpq(s['t'])
        lo, hi = P(s['lo']), P(s['hi'])
        r = PYTH[s.get('r', 0) % len(PYTH)]
        full = rect(lo, hi)
        for c in s.get('cut', ()):
            full = full - rect(P(c[0]), P(c[1]))
        joint = Geom2D.empty()
        for j, s2 in enumerate(spec):
            if j != i and s2['a'] != a:
                k = ax.index(s2['a'])
                o2, t2 = mpq(s2['o']), mpq(s2['t'])
                l2, h2 = list(lo), list(hi)
                l2[k], h2[k] = max(lo[k], o2 - t2), min(hi[k], o2)
                if l2[k] < h2[k]:
                    joint = joint | rect(l2, h2)
        inner = full - joint if not joint.is_empty() else full

        def turn(g, r=r):
            if r == PYTH[0]:
                return g
            return g.transformed_with(lambda pts: [rot(p, r) for p in pts])
        geo[i] = (a, ax, o, t, r)
        n = np.zeros(3)
        n[a] = 1
        sheets['s%d' % i] = Sheet(
            id='s%d' % i,
            sides=np.array([list(n) + [float(o)],
                            list(-n) + [-float(o - t)]]),
            faces=[turn(full), turn(inner)],
            both_faces=turn(inner), slices_max=turn(full),
            slices_min=turn(full), outside_slices=[])
    inters = {}
    for i in range(len(spec)):
        for j in range(i + 1, len(spec)):
            if spec[i]['a'] == spec[j]['a']:
                continue
            d = 3 - spec[i]['a'] - spec[j]['a']
            iid = 's%d,s%d' % (i, j)
            sides = []
            for idx, (p, q) in enumerate(((i, j), (j, i))):
                a, ax, o, t, r = geo[p]
                oa, oo, ot = geo[q][0], geo[q][2], geo[q][3]
                dv = rot(tuple(mpq(1 if x == d else 0) for x in ax), r)
                dv = np.array([mpq(x) for x in dv], object)
                nv = dv[::-1] * np.array([mpq(1), mpq(-1)], object)
                offs = []
                for w in (oo - ot, oo):
                    pt = rot(tuple(w if x == oa else mpq(0) for x in ax), r)
                    offs.append(pt[0] * nv[0] + pt[1] * nv[1])
                sides.append(InterSide(
                    id=(iid, 's%d' % p), intersection=iid, idx=idx,
                    sheet='s%d' % p, direction=dv, normal=nv,
                    origin_offset=mpq(0), min_normal_offset=min(offs),
                    max_normal_offset=max(offs)))
            inters[iid] = Intersection(id=iid, direction=None, origins=None,
                                       sides=tuple(sides))
    return SheetPlex(sheets=pyr.pmap(sheets), intersections=pyr.pmap(inters))


PARAMS = {'thickness': mpq(6), 'min_finger_width': mpq(3),
          'max_finger_width': mpq(5), 'support_radius': mpq(12),
          'debug': False, 'final_dilation': mpq(1, 20), 'random_seed': 42,
          'only_sheets': None}


def rmodel(rng, kind=None):
    """a random model: two to four sheets"""
    kind = kind or rng.choice(['L', 'T', 'U', 'corner', 'cross', 'bent'])
    w, h, d = (rng.randint(14, 40) for i in range(3))
    t = rng.choice([2, 3, 6])
    r = lambda: rng.choice([0, 0, 0, 1, 2, 3, 4, 5])
    S_ = lambda *p: [str(x) for x in p]

    def sh(a, o, lo, hi):
        if rng.random() < .3:
            k = rng.choice([0, 1])
            hi = list(hi)
            hi[k] += rng.choice([-3, -1, 2, 5])
        s = {'a': a, 'o': str(o), 't': str(t), 'lo': S_(*lo), 'hi': S_(*hi),
             'r': r()}
        if rng.random() < .2:
            u = rng.randint(lo[0] + 1, hi[0] - 1)
            v = rng.randint(lo[1] + 1, hi[1] - 1)
            s['cut'] = [[S_(u, v), S_(min(hi[0], u + rng.randint(1, 6)),
                                      min(hi[1], v + rng.randint(1, 6)))]]
        return s
    # other axes of axis 0: (y, z); of 1: (x, z); of 2: (x, y)
    A = sh(0, t, (0, 0), (w, h))
    B = sh(1, t, (0, 0), (d, h))
    if kind == 'L':
        return [A, B]
    if kind == 'T':
        return [sh(0, t, (0, 0), (w, h)), sh(1, w // 2, (0, 0), (d, h))]
    if kind == 'U':
        return [A, B, sh(0, d, (0, 0), (w, h))]
    if kind == 'corner':
        return [A, B, sh(2, t, (0, 0), (d, w))]
    if kind == 'cross':
        return [sh(0, d // 2, (0, 0), (w, h)), sh(1, w // 2, (0, 0), (d, h))]
    return [A, B, sh(2, t, (0, 0), (d, w)), sh(1, w, (0, 0), (d, h))]


def interior(g, rng, n=6):
    """points inside the pieces' bounding boxes, off all edges' endpoints"""
    out = []
    for pl in g.polygons():
        pts = list(pl.exterior())
        for k in range(n):
            a, b, c = (rng.choice(pts) for i in range(3))
            u, v = mpq(rng.randint(1, 97), 199), mpq(rng.randint(1, 97), 211)
            out.append(tuple(a[i] + (b[i] - a[i]) * u + (c[i] - a[i]) * v
                             for i in (0, 1)))
    return out


# ------------------------------------------------ comparisons of decision states

def sub2(a, b):
    """a is within b (apart from edges)"""
    return (a - b).is_empty() if not a.is_empty() else True


def same2(a, b):
    return sub2(a, b) and sub2(b, a)


def iv(g):
    return [tuple(x) for x in g.get_intervals()]


def norm1(ivs):
    out = []
    for a, b in sorted(ivs):
        if a >= b:
            continue
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def and1(a, b):
    return norm1([(max(p[0], q[0]), min(p[1], q[1])) for p in a for q in b])


def sub1(a, b):
    for q in b:
        a = [x for p in a for x in ((p[0], min(p[1], q[0])),
                                    (max(p[0], q[1]), p[1])) if x[0] < x[1]]
    return norm1(a)


def or1(a, b):
    return norm1(list(a) + list(b))


def inconsistent(sb, initial=False):
    """what the state contradicts, or None"""
    sp = sb.sheetplex
    for k in sp.sheets:
        if not sub2(sb.sheet_chosen[k], sb.sheet_ok[k]):
            return 'chosen points of sheet %s are not permitted' % k
    for inter in sp.intersections.values():
        for i in (0, 1):
            a, b = inter.sides[i], inter.sides[1 - i]
            ch, ok = iv(sb.interside_chosen[a.id]), iv(sb.interside_ok[a.id])
            if sub1(ch, ok):
                return 'positions %s chosen for %s are not permitted' % (
                    sub1(ch, ok), a.id)
            x = and1(ch, iv(sb.interside_ok[b.id]))
            if x:
                return 'positions %s chosen for %s are permitted to %s' % (
                    x, a.id, b.id)
            if initial:
                f = a.make_fingers(sb.interside_ok[b.id])
                if not (f & sb.sheet_chosen[a.sheet]).is_empty():
                    return 'sheet %s has chosen points on fingers ' \
                        'permitted to %s' % (a.sheet, b.id)
    return None


def diff(sb, exp, what=''):
    """compare with expected maps {field: {key: Geom or intervals}}"""
    for f, m in exp.items():
        got = getattr(sb, f)
        if set(got) != set(m):
            return '%s: %s has keys %s' % (what, f, sorted(map(str, got)))
        for k, g in m.items():
            if f.startswith('sheet'):
                if not (got[k] is g or same2(got[k], g)):
                    return '%s: %s[%s] is wrong' % (what, f, k)
            elif iv(got[k]) != norm1(g):
                return '%s: %s[%s] is %s instead of %s' % (
                    what, f, k, iv(got[k]), g)
    return None


def maps(sb):
    """the four maps of a state, as values"""
    return {'sheet_chosen': dict(sb.sheet_chosen),
            'sheet_ok': dict(sb.sheet_ok),
            'interside_chosen': {k: iv(v) for k, v in
                                 sb.interside_chosen.items()},
            'interside_ok': {k: iv(v) for k, v in sb.interside_ok.items()}}


def strip2(side, ivs):
    """the sheet area of the positions, made independently"""
    g = Geom2D.empty()
    for a, b in ivs:
        pts = []
        for al, n in ((a, side.min_normal_offset), (a, side.max_normal_offset),
                      (b, side.max_normal_offset), (b, side.min_normal_offset)):
            p = (al + side.origin_offset) * side.direction + n * side.normal
            pts.append((p[0], p[1]))
        g = g | Geom2D.polygon(pts, reorient=True)
    return g
