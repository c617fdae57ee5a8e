from slu import *
from plycutter import heuristics as H

RULE = 'synthetic two- to four-sheet models: the pipeline steps in their ' \
    'order or shuffled, between random permitted choices; every step is ' \
    'compared with the state it was given'
BOUNDS = 'up to 4 sheets, 5 joints, 8 steps'
MIN_CASES = 12
STEPS = ['choose_obviously_irrelevant', 'remove_loose',
         'update_intersection_ok', 'update_sheet_ok',
         'heuristic_multi_inter_single_decisions', 'choose_the_ok_side',
         'single_fingers_random', 'clean_up_thin_ok_parts']


def cases(rng, tier):
    k = 0
    kinds = ['L', 'corner', 'T', 'cross', 'U', 'corner', 'L', 'bent']
    while True:
        kind = kinds[k % len(kinds)]
        k += 1
        if k % 3 == 1:
            ops = list(STEPS)
        else:
            ops = [rng.choice(STEPS[:7]) for i in range(rng.choice([1, 2,
                                                                     3]))]
        if k % 2 == 0 or rng.random() < .3:
            for i in range(rng.choice([1, 2, 3])):
                ops.insert(rng.randint(0, len(ops)),
                           [rng.choice('cccuua'), rng.randint(0, 9),
                            [S(mpq(rng.randint(0, 24), 24))
                             for i in range(4)]])
        yield {'spec': rmodel(rng, kind), 'ops': ops,
               'seed': rng.randint(0, 1000),
               'w': rng.choice([[3, 5], [3, 4], [2, 9], [6, 7]])}


def snap(sb):
    def v(g):
        if hasattr(g, 'polygons'):
            return [[[tuple(p) for p in pl.exterior()]] +
                    [[tuple(p) for p in h] for h in
                     (pl.holes() if hasattr(pl, 'holes') else [])]
                    for pl in g.polygons()]
        return iv(g)
    return {f: {k: v(g) for k, g in getattr(sb, f).items()}
            for f in ('sheet_chosen', 'sheet_ok', 'interside_chosen',
                      'interside_ok')}


def approx(g):
    import shapely.geometry as G
    import shapely.ops
    f = lambda pts: [(float(p[0]), float(p[1])) for p in pts]
    return shapely.ops.unary_union([G.Polygon(f(pl.exterior()), [
        f(h) for h in pl.holes()]) for pl in g.polygons()])


def narrowed(a, b, what):
    for f, up in (('sheet_chosen', 1), ('sheet_ok', 0),
                  ('interside_chosen', 1), ('interside_ok', 0)):
        x, y = getattr(a, f), getattr(b, f)
        if set(x) != set(y):
            return '%s: %s has other keys' % (what, f)
        for k in x:
            if x[k] is y[k]:
                continue
            lo, hi = (x[k], y[k]) if up else (y[k], x[k])
            # rounding in the widths of random fingers leaves traces
            if f[0] == 'i':
                r = sub1(iv(lo), iv(hi))
                if sum(b - a for a, b in r) < mpq(1, 10 ** 6):
                    r = None
            else:
                r = None if lo.is_empty() else (lo - hi).area()
                r = 'an area of %s' % float(r) if r and \
                    r >= mpq(1, 10 ** 6) else None
            if r:
                return '%s: %s[%s]: %s %s' % (
                    what, f, k, r, 'was given up' if up else
                    'is newly permitted')
    for k in b.sheet_chosen:
        if k in b.sheet_ok and b.sheet_chosen[k] is not a.sheet_chosen[k] \
                or b.sheet_ok[k] is not a.sheet_ok[k]:
            r = approx(b.sheet_chosen[k]).difference(
                approx(b.sheet_ok[k])).area
            if r >= mpq(1, 50):
                return '%s: an area of %s chosen on sheet %s is not ' \
                    'permitted' % (what, float(r), k)
    if b.sheetplex is not a.sheetplex:
        return '%s: other sheet model' % what
    return None


def perturb(sb, op):
    n, fr = op[1], sorted(Q(x) for x in op[2])
    inters = sorted(sb.sheetplex.intersections.values(), key=lambda i: i.id)
    i = inters[n % len(inters)]
    a, b = i.sides[n // 5 % 2], i.sides[1 - n // 5 % 2]
    ok = sub1(iv(sb.interside_ok[a.id]), iv(sb.interside_chosen[a.id]))
    if not ok:
        return sb
    lo, hi = ok[0][0], ok[-1][1]
    v = Geom1D(and1(ok, [(lo + (hi - lo) * fr[0], lo + (hi - lo) * fr[1])]))
    try:
        if op[0] == 'c':
            return sb.choose_interside(a.id, v)
        if op[0] == 'u':
            return sb.unchoose_interside(a.id, v)
        g = strip2(a, iv(v))
        return sb.unchoose_sheet_area(a.sheet, g - sb.sheet_chosen[a.sheet])
    except AssertionError:
        return sb


def check(c):
    sp = build(c['spec'])
    par = dict(PARAMS, random_seed=c['seed'], min_finger_width=c['w'][0],
               max_finger_width=c['w'][1])
    sb = SB.create_sheetbuild(sp, par)
    pset = dict(par)
    done = []
    for op in c['ops']:
        if not isinstance(op, str):
            sb = perturb(sb, op)
            done.append(op)
            continue
        if not hasattr(H, op):
            continue
        old = snap(sb)
        try:
            new = getattr(H, op)(sb, par)
        except (AssertionError, Exception) as e:
            if isinstance(e, (TypeError, AttributeError, NameError)):
                return '%s after %s: unexpected %s' % (op, done, e)
            continue
        what = '%s after %s' % (op, done)
        e = narrowed(sb, new, what)
        if e is None and snap(sb) != old:
            e = what + ': the state passed in was modified'
        if e is None and par != pset:
            e = what + ': the options were modified'
        if e:
            return e
        done.append(op)
        sb = new
    return None


def nontrivial(c):
    return any(isinstance(o, str) for o in c['ops'])


def shrink(c):
    for i in range(len(c['ops'])):
        yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    for i, s in enumerate(c['spec']):
        if s['r'] or s.get('cut'):
            s2 = dict(s, r=0)
            s2.pop('cut', None)
            yield dict(c, spec=c['spec'][:i] + [s2] + c['spec'][i + 1:])
