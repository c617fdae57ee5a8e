from slu import *
import numpy as np
from plycutter import create_sheetplex as C

RULE = 'random sets of up to 14 sheets with axis-parallel and slanted ' \
    'orientations in space (joints made by the real code), every query on ' \
    'every joint, and restrictions to random subsets'
BOUNDS = 'up to 14 sheets'
MIN_CASES = 60
DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1),
        (3, 4, 0), (0, 3, 4), (-4, 0, 3), (1, 1, 1), (1, -1, 0), (2, -3, 6),
        (1, .002, 0), (-3, -4, 0), (1, .01, 0)]


def cases(rng, tier):
    while True:
        n = rng.choice([1, 2, 2, 3, 4, 5, 7, 12, 14])
        ids = list(range(n))
        if rng.random() < .3:
            ids = rng.sample(range(25), n)
        if rng.random() < .2:
            ids = rng.sample(['a', 'b', 'ab', 'ba', 'aa', 'bb', 'aab', 'a b',
                              '', 'A', '1', '11', '12', 'abb'], n)
        yield {'sheets': [[i, rng.randrange(len(DIRS)), rng.randint(-9, 9)]
                          for i in ids],
               'keep': [i for i in ids if rng.random() < .6] +
               rng.choice([[], [], [77]]), 'as': rng.choice('lsti')}


def rotation(n):
    """an orthogonal matrix that turns the z axis into n"""
    a = np.array([1., 0, 0]) if abs(n[0]) < .9 else np.array([0, 1., 0])
    u = np.cross(n, a)
    u /= np.linalg.norm(u)
    m = np.eye(4)
    m[:3, 0], m[:3, 1], m[:3, 2] = u, np.cross(n, u), n
    return m


def nm(i):
    return 's%d' % i if isinstance(i, int) else i


def mk(c):
    sheets = {}
    for i, d, o in c['sheets']:
        n = np.array(DIRS[d], float)
        n /= np.linalg.norm(n)
        m = rotation(n)
        sheets[nm(i)] = Sheet(
            id=nm(i), sides=np.array([list(n) + [float(o)],
                                          list(-n) + [-float(o - 6)]]),
            slice_rotation=m, inverse_slice_rotation=m.T)
    return SheetPlex(sheets=pyr.pmap(sheets), intersections=pyr.m())


def well_formed(sp, what):
    pairs = {}
    for k, i in sp.intersections.items():
        if i.id != k:
            return '%s: joint %s is stored as %s' % (what, i.id, k)
        if len(i.sides) != 2:
            return '%s: joint %s has %d sides' % (what, k, len(i.sides))
        for n, s in enumerate(i.sides):
            if s.idx != n or s.intersection != k or \
                    s.id != (k, s.sheet) or s.sheet not in sp.sheets:
                return '%s: side %d of joint %s is %s' % (what, n, k, (
                    s.id, s.idx, s.intersection, s.sheet))
        p = frozenset(s.sheet for s in i.sides)
        if len(p) != 2 or p in pairs:
            return '%s: joint %s between %s (also %s)' % (
                what, k, sorted(p), pairs.get(p))
        pairs[p] = k
    return pairs


def check(c):
    sp0 = mk(c)
    sp = C.create_intersections(sp0)
    if sp.sheets is not sp0.sheets and dict(sp.sheets) != dict(sp0.sheets):
        return 'create_intersections: the sheets changed'
    if len(sp0.intersections):
        return 'create_intersections: the model passed in was modified'
    pairs = well_formed(sp, 'create_intersections')
    if isinstance(pairs, str):
        return pairs
    ids = sorted(sp.sheets)
    for i, a in enumerate(ids):
        for b in ids[i + 1:]:
            s = np.linalg.norm(np.cross(sp.sheets[a].sides[0][:3],
                                        sp.sheets[b].sides[0][:3]))
            has = frozenset((a, b)) in pairs
            if s >= .001 and not has:
                return 'create_intersections: sheets %s and %s have no ' \
                    'joint' % (a, b)
            if s < 1e-5 and has:
                return 'create_intersections: parallel sheets %s and %s ' \
                    'have a joint' % (a, b)
    e = queries(sp, c, 'model')
    if e:
        return e
    keep = [nm(i) for i in c['keep']]
    before = dict(sp.intersections)
    sp2 = sp.limit({'l': list, 's': set, 't': tuple, 'i': iter}[
        c['as']](keep))
    if set(sp2.sheets) != set(keep) & set(sp.sheets) or any(
            sp2.sheets[k] is not sp.sheets[k] for k in sp2.sheets):
        return 'limit: sheets %s for %s' % (sorted(sp2.sheets), keep)
    want = {k for p, k in pairs.items() if p <= set(keep)}
    if set(sp2.intersections) != want or any(
            sp2.intersections[k] is not sp.intersections[k] for k in want):
        return 'limit: joints %s for %s' % (sorted(sp2.intersections), keep)
    if dict(sp.intersections) != before:
        return 'limit: the model itself was modified'
    return queries(sp2, c, 'restricted model')


def queries(sp, c, what):
    from collections import Counter
    allsides = [s for i in sp.intersections.values() for s in i.sides]
    for sh in [None] + sorted(sp.sheets):
        got = Counter(s.id for s in (sp.intersides() if sh is None else
                                     sp.intersides(sh)))
        want = Counter(s.id for s in allsides if sh is None or s.sheet == sh)
        if got != want:
            return '%s: intersides(%s) gives %s instead of %s' % (
                what, sh, sorted(got.elements()), sorted(want.elements()))
    for s in allsides:
        if sp.interside(s.id) is not s:
            return '%s: interside(%s) is another side' % (what, s.id)
        o = s.opposite(sp)
        if o is s or o.intersection != s.intersection or \
                o.opposite(sp) is not s:
            return '%s: opposite of %s' % (what, s.id)
    for i in sp.intersections.values():
        if list(i.sheets()) != [s.sheet for s in i.sides]:
            return '%s: sheets of %s' % (what, i.id)
        for sh in sorted(sp.sheets) + ['nowhere']:
            w = [s for s in i.sides if s.sheet == sh]
            g = i.side_by_sheet(sh)
            if g is not (w[0] if w else None):
                return '%s: side_by_sheet(%s) of %s' % (what, sh, i.id)
    return None


def nontrivial(c):
    return len(c['sheets']) > 2


def shrink(c):
    for i in range(len(c['sheets'])):
        yield dict(c, sheets=c['sheets'][:i] + c['sheets'][i + 1:])
    for i in range(len(c['keep'])):
        yield dict(c, keep=c['keep'][:i] + c['keep'][i + 1:])
