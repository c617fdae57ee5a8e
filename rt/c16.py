from slu import *

RULE = 'synthetic two- to four-sheet models (L, T, U, corner, cross, bent; ' \
    'random sizes, rotations and cut-outs): initial state, then random ' \
    'permitted and forbidden steps'
BOUNDS = 'up to 4 sheets, 5 joints, 5 steps'
MIN_CASES = 40


def cases(rng, tier):
    k = 0
    while True:
        kinds = ['L', 'T', 'cross', 'corner', 'U', 'bent', 'L', 'corner']
        spec = rmodel(rng, kinds[k % len(kinds)])
        k += 1
        steps = []
        for i in range(rng.choice([1, 2, 3, 4, 5])):
            f = [mpq(rng.randint(0, 24), 24) for i in range(4)]
            if rng.random() < .4:
                e = mpq(1, rng.choice([300, 1000]))
                f = [f[0], f[0] + e, f[1], f[1] + e]
            steps.append([rng.choice(['c', 'c', 'c', 't', 'u', 'u', 'a', 'C',
                                      'U', 'x', 'y', 'z', 'w', 'w', 'k']),
                          rng.randint(0, 9), [S(x) for x in f]])
        yield {'spec': spec, 'steps': steps,
               'rad': S(mpq(rng.choice([1, 2, 12, 12, 25])))}


def part(ivs, f):
    """the part of the positions given by fractions of their extent"""
    if not ivs:
        return []
    lo, hi = ivs[0][0], ivs[-1][1]
    f = sorted(f)
    return and1(ivs, norm1([(lo + (hi - lo) * f[0], lo + (hi - lo) * f[1]),
                            (lo + (hi - lo) * f[2], lo + (hi - lo) * f[3])]))


def check(c):
    sp = build(c['spec'])
    par = dict(PARAMS, support_radius=Q(c['rad']))
    sb = SB.create_sheetbuild(sp, par)
    if sb.sheetplex is not sp:
        return 'initial state: other sheet model'
    m = maps(sb)
    ids = [s.id for s in sp.intersides()]
    if set(m['sheet_chosen']) != set(sp.sheets) or \
            set(m['sheet_ok']) != set(sp.sheets) or \
            set(m['interside_ok']) != set(ids) or \
            set(m['interside_chosen']) != set(ids):
        return 'initial state: keys'
    e = inconsistent(sb, True)
    if e:
        return 'initial state (support radius %s): %s' % (c['rad'], e)
    ids = [(i.id, s) for i in sorted(sp.intersections.values(),
                                     key=lambda i: i.id) for s in (0, 1)]
    for op, n, fr in c['steps']:
        fr = [Q(x) for x in fr]
        iid, idx = ids[n % len(ids)]
        inter = sp.intersections[iid]
        a, b = inter.sides[idx], inter.sides[1 - idx]
        old = maps(sb)
        ok, ch = old['interside_ok'], old['interside_chosen']
        exp = {f: dict(v) for f, v in old.items()}

        def choose(v, a, b, tent):
            if sub1(v, exp['interside_ok'][a.id]):
                return 'not permitted'
            fo = strip2(b, v)
            if not (fo & exp['sheet_chosen'][b.sheet]).is_empty():
                return 'fingers on chosen area'
            if not tent:
                exp['sheet_chosen'][a.sheet] = exp['sheet_chosen'][
                    a.sheet] | (strip2(a, v) & exp['sheet_ok'][a.sheet])
            exp['sheet_ok'][b.sheet] = exp['sheet_ok'][b.sheet] - fo
            exp['interside_chosen'][a.id] = or1(
                exp['interside_chosen'][a.id], v)
            exp['interside_ok'][b.id] = sub1(exp['interside_ok'][b.id], v)

        def unchoose(v, a):
            if and1(v, exp['interside_chosen'][a.id]):
                return 'already chosen'
            exp['interside_ok'][a.id] = sub1(exp['interside_ok'][a.id], v)
        bad = None
        if op in 'ct':
            v = part(ok[a.id], fr)
            what = 'choose_interside(%s, %s)' % (a.id, v)
            bad = choose(v, a, b, op == 't')
            run = lambda: sb.choose_interside(a.id, Geom1D(v), **(
                {'tentative': True} if op == 't' else {}))
        elif op == 'u':
            v = part(sub1(ok[a.id], ch[a.id]), fr)
            what = 'unchoose_interside(%s, %s)' % (a.id, v)
            bad = unchoose(v, a)
            run = lambda: sb.unchoose_interside(a.id, Geom1D(v))
        elif op in 'CU':
            w = {}
            f2 = sorted(fr)
            for k, (i2, x2) in enumerate(ids[n % len(ids):][:3]):
                s, o = sp.intersections[i2].sides[x2], \
                    sp.intersections[i2].sides[1 - x2]
                v = part(sub1(ok[s.id], ch[s.id]), [
                    f2[x2], f2[x2 + 1], f2[x2 + 1], f2[x2 + 2]])
                w[s.id] = (v, s, o)
            what = 'choose_intersides' if op == 'C' else 'unchoose_intersides'
            what += ' %s' % {k: v[0] for k, v in w.items()}
            for v, s, o in w.values():
                bad = bad or (choose(v, s, o, False) if op == 'C'
                              else unchoose(v, s))
            arg = {k: Geom1D(v[0]) for k, v in w.items()}
            run = lambda: (sb.choose_intersides if op == 'C' else
                           sb.unchoose_intersides)(arg)
        elif op == 'a':
            g = sb.sheet_ok[a.sheet] - sb.sheet_chosen[a.sheet]
            x = [p for pl in g.polygons() for p in pl.exterior()]
            if not x:
                continue
            lo = [min(p[i] for p in x) for i in (0, 1)]
            hi = [max(p[i] for p in x) for i in (0, 1)]
            f2 = sorted(fr[:2]) + sorted(fr[2:])
            if f2[0] == f2[1] or f2[2] == f2[3]:
                continue
            g = g & rect([lo[i] + (hi[i] - lo[i]) * f2[2 * i] for i in (0, 1)],
                         [lo[i] + (hi[i] - lo[i]) * f2[2 * i + 1]
                          for i in (0, 1)])
            what = 'unchoose_sheet_area(%s)' % a.sheet
            exp['sheet_ok'][a.sheet] = sb.sheet_ok[a.sheet] - g
            run = lambda: sb.unchoose_sheet_area(a.sheet, g)
        elif op == 'x':     # not permitted: must be refused
            v = or1(part(ok[a.id], fr), [(mpq(2000), mpq(2000) + 1 + fr[0])])
            what = 'choose_interside(%s, %s)' % (a.id, v)
            bad = 'not permitted'
            run = lambda: sb.choose_interside(a.id, Geom1D(v))
        elif op == 'y':
            if not ch[a.id]:
                continue
            v = part(ch[a.id], fr)
            if not v:
                continue
            what = 'unchoose_interside(%s, %s)' % (a.id, v)
            bad = 'already chosen'
            run = lambda: sb.unchoose_interside(a.id, Geom1D(v))
        elif op == 'k':     # a bit of the other sheet is already chosen
            v = part(and1(ok[a.id], ok[b.id]), fr)
            g = strip2(b, v) & sb.sheet_ok[b.sheet]
            if g.is_empty() or g.area() < mpq(1, 1000):
                continue
            s2 = sb.transform(['sheet_chosen', b.sheet], lambda h: h | g)
            what = 'choose_interside(%s, %s) with fingers on chosen area' % (
                a.id, v)
            bad = 'fingers on chosen area'
            run = lambda: s2.choose_interside(a.id, Geom1D(v))
        elif op == 'z':
            g = sb.sheet_chosen[a.sheet]
            if g.is_empty():
                continue
            if fr[0] > mpq(1, 2):
                x = [p for pl in g.polygons() for p in pl.exterior()]
                x = x[n % len(x)]
                e = fr[3] / 10 + mpq(1, 50)
                g = g & rect((x[0] - e, x[1] - e), (x[0] + e, x[1] + e))
                if g.area() < mpq(1, 1000):
                    continue
            what = 'unchoose_sheet_area(%s, part of its chosen area)' % (
                a.sheet)
            bad = 'already chosen'
            run = lambda: sb.unchoose_sheet_area(a.sheet, g)
        else:               # _check refuses inconsistent states
            v = part(ok[a.id], fr)
            if not v:
                continue
            w = n % 4
            if w == 0:
                g0 = sb.sheet_chosen[a.sheet]
                if n > 4 and not g0.is_empty():
                    x = list(g0.polygons()[0].exterior())[0]
                    g0 = g0 & rect((x[0] - mpq(1, 50), x[1] - mpq(1, 50)),
                                   (x[0] + mpq(1, 50), x[1] + mpq(1, 50)))
                if g0.is_empty():
                    continue
                s2 = sb.transform(['sheet_ok', a.sheet], lambda g: g - g0)
            elif w == 1:
                s2 = sb.transform(['interside_chosen', a.id],
                                  lambda g: g | Geom1D([(mpq(3000),
                                                         3000 + mpq(1, 1 + 9 * (n > 4)))]))
            elif w == 2:
                v = and1(v, ok[b.id])
                if not v:
                    continue
                s2 = sb.transform(['interside_chosen', a.id],
                                  lambda g: g | Geom1D(v))
            else:
                v = and1(v, ok[b.id])
                g = strip2(a, v) & sb.sheet_ok[a.sheet]
                if g.is_empty() or g.area() < mpq(1, 100):
                    continue
                s2 = sb.transform(['sheet_chosen', a.sheet],
                                  lambda h: h | g)
            what = '_check of an inconsistent state (kind %d, %s, %s)' % (
                w, a.id, v)
            bad = 'inconsistent'
            run = lambda: s2.check(force=True)
        try:
            new = run()
        except AssertionError:
            if bad is None:
                return what + ' was refused'
            continue
        if bad is not None:
            return '%s was not refused (%s)' % (what, bad)
        e = diff(new, exp, what)
        if e is None and new.sheetplex is not sp:
            e = what + ': other sheet model'
        if e is None:
            e = diff(sb, old, what + ': old state modified')
        if e is None:
            e = inconsistent(new)
            e = e and 'after %s: %s' % (what, e)
        if e:
            return e
        sb = new
    return None


def nontrivial(c):
    return True


def shrink(c):
    for i in range(len(c['steps'])):
        yield dict(c, steps=c['steps'][:i] + c['steps'][i + 1:])
    if c['rad'] != '12':
        yield dict(c, rad='12')
    for i, s in enumerate(c['spec']):
        if s['r'] or s.get('cut'):
            s2 = dict(s, r=0)
            s2.pop('cut', None)
            yield dict(c, spec=c['spec'][:i] + [s2] + c['spec'][i + 1:])
