"""C08: bounding boxes are tight and their tests are exact."""
from contracts.common import *
from pyvc.target import mval
from pyvc.eng import ListRec

LEVEL = 'proof'
A = G + 'aabb:AABB'


def new_box(t, eng, st, lo=None, hi=None):
    """a box made by the constructor: (lo, hi) or empty"""
    c = t.func(eng, A)
    args = [] if lo is None else [lo, hi]
    if lo is not None:
        st.assume(R(lo[0]) <= R(hi[0]), R(lo[1]) <= R(hi[1]))
    outs = [(s, v) for s, v in eng.instantiate(c, st, args, {})]
    if len(outs) != 1 or isinstance(outs[0][1], Exc):
        raise Unsupported('construction of a box')
    return outs[0]


def corner(eng, s, b, f):
    v = s.heap[b.id].fields[f]
    sq = eng.lib.as_seq(eng, s, v)
    if sq.n != 2:
        raise Unsupported('box corner')
    return sq.get(0), sq.get(1)


def is_box(eng, s, b, lo, hi):
    """the box object b represents exactly [lo, hi] (incl. middle)"""
    l, h, m = (corner(eng, s, b, f) for f in ('lower', 'upper', 'middle'))
    fs = []
    for i in (0, 1):
        for a, e in ((l[i], R(lo[i])), (h[i], R(hi[i])),
                     (m[i], (R(lo[i]) + R(hi[i])) / 2)):
            x = toX(a)
            fs.append(band(x.fin(), x.v == e))
    return band(*fs)


def meth(eng, s, b, name):
    outs = list(eng.getattr(s, b, name))
    return outs[0][1]


def mmin(a, b):
    return Num('mpq', z3.If(R(a) < R(b), R(a), R(b)))


def mmax(a, b):
    return Num('mpq', z3.If(R(a) > R(b), R(a), R(b)))


def run(t, eng, s, b, name, args):
    m = meth(eng, s, b, name)
    f = m.func
    t.funcs.append(f.key)
    for s1, v in eng.call(m, s, args):
        if isinstance(v, Exc):
            eng.oblige(s1, '%s: raises no %s' % (name, v.name), False, f.key)
            continue
        yield s1, v


def boolean(eng, s, v):
    for s1, t in eng.truth(v, s):
        if isinstance(t, Exc):
            eng.oblige(s1, 'result has a truth value', False)
        else:
            yield s1, bz(t)


def include(t):
    eng = t.engine()
    lo, hi, p = pt('lo'), pt('hi'), pt('p')
    t.replay(eng, lambda m: {'k': 'inc', 'pts': [
        mval(m, lo), mval(m, hi), mval(m, p)]})
    s, b = new_box(t, eng, fresh_state(), lo, hi)
    eng.oblige(s.copy(), 'AABB(lower, upper) represents this box',
               is_box(eng, s, b, lo, hi), A)
    n = 0
    for s1, v in run(t, eng, s, b, 'include_point', [p]):
        n += 1
        eng.oblige(s1, 'include_point: the smallest box with the old box and '
                   'the point', is_box(
                       eng, s1, b, (mmin(lo[0], p[0]), mmin(lo[1], p[1])),
                       (mmax(hi[0], p[0]), mmax(hi[1], p[1]))), A)
    s, b = new_box(t, eng, fresh_state())
    for s1, v in run(t, eng, s, b, 'include_point', [p]):
        n += 1
        eng.oblige(s1, 'include_point: an empty box becomes the point',
                   is_box(eng, s1, b, p, p), A)
    # array points (the program also passes these)
    s, b = new_box(t, eng, fresh_state(), lo, hi)
    pa = SeqV(CSeq(p), 'arr')
    for s1, v in run(t, eng, s, b, 'include_point', [pa]):
        n += 1
        eng.oblige(s1, 'include_point: the same for a point given as array',
                   is_box(eng, s1, b, (mmin(lo[0], p[0]), mmin(lo[1], p[1])),
                          (mmax(hi[0], p[0]), mmax(hi[1], p[1]))), A)
    # boxes are values: extending one changes no other box and no argument
    for which in ('box', 'tuples', 'point'):
        s, b = new_box(t, eng, fresh_state(), lo, hi)
        pv = p
        if which == 'box':
            r = s.heap[b.id].fields
            outs = list(eng.instantiate(t.func(eng, A), s,
                                        [r['lower'], r['upper']], {}))
        elif which == 'tuples':
            outs = list(eng.instantiate(t.func(eng, A), s, [lo, hi], {}))
        else:
            pv = s.alloc(ListRec(CSeq(p), 'arr'))
            outs = list(eng.instantiate(t.func(eng, A), s, [], {}))
        s, b2 = outs[0]
        for s1, v in run(t, eng, s, b2, 'include_point', [pv]):
            n += 1
            if which == 'point':
                for s2, v2 in run(t, eng, s1, b2, 'include_point', [hi]):
                    q = eng.lib.as_seq(eng, s2, pv)
                    eng.oblige(s2, 'include_point: the point given is not '
                               'modified', band(*[
                                   R(q.get(i)) == R(p[i]) for i in (0, 1)]),
                               A)
                continue
            eng.oblige(s1, 'include_point: the smallest box, for a box made '
                       'from the corners of another', is_box(
                           eng, s1, b2, (mmin(lo[0], p[0]),
                                         mmin(lo[1], p[1])),
                           (mmax(hi[0], p[0]), mmax(hi[1], p[1]))), A)
            eng.oblige(s1, 'include_point: other boxes stay as they are',
                       is_box(eng, s1, b, lo, hi), A)
    eng.oblige(fresh_state(), 'include_point: normal completion reachable',
               n >= 3)


def inside(lo, hi, x, y):
    return z3.And(R(lo[0]) <= x, x <= R(hi[0]), R(lo[1]) <= y,
                  y <= R(hi[1]))


def contains(t):
    eng = t.engine()
    lo, hi, p = pt('lo'), pt('hi'), pt('p')
    t.replay(eng, lambda m: {'k': 'con', 'pts': [mval(m, lo), mval(m, hi)],
                             'p': mval(m, p)})
    s, b = new_box(t, eng, fresh_state(), lo, hi)
    for s1, v in run(t, eng, s, b, 'contains', [p]):
        for s2, r in boolean(eng, s1, v):
            eng.oblige(s2, 'contains: exactly the points of the box',
                       r == inside(lo, hi, R(p[0]), R(p[1])), A)
    s, b = new_box(t, eng, fresh_state())
    for s1, v in run(t, eng, s, b, 'contains', [p]):
        for s2, r in boolean(eng, s1, v):
            eng.oblige(s2, 'contains: an empty box contains nothing',
                       z3.Not(r), A)


def boxes(t):
    eng = t.engine()
    lo, hi, lo2, hi2 = pt('lo'), pt('hi'), pt('lo2'), pt('hi2')
    t.replay(eng, lambda m: {'k': 'box', 'pts': [mval(m, lo), mval(m, hi)],
                             'q': [mval(m, lo2), mval(m, hi2)]})
    s, b = new_box(t, eng, fresh_state(), lo, hi)
    s, b2 = new_box(t, eng, s, lo2, hi2)
    x, y = z3.Reals('x y')
    for s1, v in run(t, eng, s, b, 'intersects_aabb', [b2]):
        for s2, r in boolean(eng, s1, v):
            s3 = s2.copy().assume(r)
            eng.oblige(s3, 'intersects_aabb: true only when the boxes share '
                       'a point', z3.And(*[
                           inside(l, h, R(mmax(lo[0], lo2[0])),
                                  R(mmax(lo[1], lo2[1])))
                           for l, h in ((lo, hi), (lo2, hi2))]), A)
            eng.oblige(s2, 'intersects_aabb: true whenever they share a '
                       'point', z3.Implies(z3.And(
                           inside(lo, hi, x, y), inside(lo2, hi2, x, y)), r),
                       A)
    for which in (0, 1):
        s, b = new_box(t, eng, fresh_state(), lo, hi)
        s, e = new_box(t, eng, s)
        for s1, v in run(t, eng, s, *((b, 'intersects_aabb', [e]) if which
                                      else (e, 'intersects_aabb', [b]))):
            for s2, r in boolean(eng, s1, v):
                eng.oblige(s2, 'intersects_aabb: an empty box meets nothing',
                           z3.Not(r), A)


def segment(t):
    eng = t.engine()
    lo, hi, p, e = pt('lo'), pt('hi'), pt('p'), pt('e')
    t.replay(eng, lambda m: {'k': 'seg', 'pts': [mval(m, lo), mval(m, hi)],
                             's': [mval(m, p), mval(m, e)]})
    s, b = new_box(t, eng, fresh_state(), lo, hi)
    dx, dy = R(e[0]) - R(p[0]), R(e[1]) - R(p[1])

    def at(u):
        return inside(lo, hi, R(p[0]) + u * dx, R(p[1]) + u * dy)
    u = z3.Real('u')
    # candidate parameters: the start, and where x / y enters the box
    wx = z3.If(dx > 0, (R(lo[0]) - R(p[0])) / dx,
               z3.If(dx < 0, (R(hi[0]) - R(p[0])) / dx, 0))
    wy = z3.If(dy > 0, (R(lo[1]) - R(p[1])) / dy,
               z3.If(dy < 0, (R(hi[1]) - R(p[1])) / dy, 0))
    for s1, v in run(t, eng, s, b, 'intersects_segment', [(p, e)]):
        for s2, r in boolean(eng, s1, v):
            for c in (dx > 0, dx < 0, dx == 0):
                for c2 in (dy > 0, dy < 0, dy == 0):
                    s3 = s2.copy().assume(c, c2)
                    eng.oblige(s3.copy().assume(r), 'intersects_segment: '
                               'true only when the segment meets the box',
                               z3.Or(at(z3.RealVal(0)), *[
                                   z3.And(0 <= w, w <= 1, at(w))
                                   for w in (wx, wy)]), A)
                    eng.oblige(s3.copy().assume(0 <= u, u <= 1, at(u)),
                               'intersects_segment: true whenever the '
                               'segment meets the box', r, A)
    s, b = new_box(t, eng, fresh_state())
    for s1, v in run(t, eng, s, b, 'intersects_segment', [(p, e)]):
        for s2, r in boolean(eng, s1, v):
            eng.oblige(s2, 'intersects_segment: an empty box meets nothing',
                       z3.Not(r), A)


TARGETS = [('include_point', include), ('contains', contains),
           ('intersects_aabb', boxes), ('intersects_segment', segment)]
