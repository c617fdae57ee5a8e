from g1u import *

RULE = 'all sets of at most two intervals over -inf, 0, 1, 2, inf, every ' \
    'query at every distinguishing point, then random interval lists'
BOUNDS = 'at most 5 intervals in the random part'
OPS = ('or', 'and', 'sub', 'xor', 'inv', 'buffer')
KINDS = ('new', 'locate', 'empty', 'measure', 'bounded', 'pieces', 'filter')


def cases(rng, tier):
    for a in small():
        for k in KINDS:
            yield {'k': k, 'a': a}
    sm = list(small())
    for a in sm[:16]:
        for b in sm[:16]:
            for o in OPS[:4]:
                yield {'k': o, 'a': a, 'b': b}
    while True:
        b = riv(rng, 3)
        for o in OPS:
            yield {'k': o, 'a': riv(rng, 3), 'b': b}
        a = riv(rng, 5)
        for k in KINDS:
            yield {'k': k, 'a': a, 'p': rng.randint(0, 6)}


def check(c):
    ia = qiv(c['a'])
    for a, b in ia:
        need(a <= b)
    g = Geom1D([list(p) for p in ia])
    m = merged(ia)
    r = list(g.intervals)
    bad = canonical(r)
    if bad:
        return 'not canonical: %s' % bad
    if [tuple(p) for p in r] != m:
        return 'intervals: %s expected %s' % (r, m)
    if [tuple(p) for p in g.get_intervals()] != m:
        return 'get_intervals: %s expected %s' % (g.get_intervals(), m)
    k = c['k']
    if k in OPS:
        gb = Geom1D([list(p) for p in qiv(c.get('b', []))])
        v = {'or': lambda: g | gb, 'and': lambda: g & gb,
             'sub': lambda: g - gb, 'xor': lambda: g ^ gb,
             'inv': lambda: ~g, 'buffer': lambda: g.buffer(1)}[k]()
        bad = canonical(v.intervals)
        if bad:
            return 'result not canonical: %s of %s %s: %s' % (
                k, m, gb.intervals, bad)
        return None
    if k == 'locate':
        ps = probes(ia) + [math.inf, -math.inf]
        if 'x' in c:
            ps = [Q(c['x'])] + ps
        for x in ps:
            exp = 0 if any(x in p for p in m) else (
                1 if any(a < x < b for a, b in m) else -1)
            v = g.locate(x)
            if v != exp:
                return 'locate: %s of %s gives %s' % (x, m, v)
    elif k == 'empty':
        if bool(g.is_empty()) != (m == []):
            return 'is_empty: %s' % m
    elif k == 'measure':
        exp = sum([b - a for a, b in m])
        v = g.measure1d()
        if v != exp:
            return 'measure: %s of %s' % (v, m)
    elif k == 'bounded':
        exp = not any(math.isinf(v) for p in m for v in p)
        if bool(g.is_bounded()) != exp:
            return 'is_bounded: %s' % m
    elif k == 'pieces':
        v = g.disjoint_pieces()
        if [[tuple(i) for i in p.intervals] for p in v] != [[p] for p in m]:
            return 'pieces: %s of %s' % (v, m)
    elif k == 'filter':
        preds = [lambda lo, hi: True, lambda lo, hi: False,
                 lambda lo, hi: lo >= 0, lambda lo, hi: hi <= 1,
                 lambda lo, hi: hi - lo >= 1, lambda lo, hi: (lo, hi) == m[0],
                 lambda lo, hi: (lo, hi) == m[-1]]
        for f in preds:
            v = g.filter(f)
            if [tuple(p) for p in v.intervals] != [p for p in m if f(*p)]:
                return 'filter: %s of %s' % (v, m)
    if list(g.intervals) != r:
        return 'set modified: %s' % k
    return None


def shrink(c):
    for i in range(len(c['a'])):
        yield dict(c, a=c['a'][:i] + c['a'][i + 1:])
