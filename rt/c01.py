from g1u import *

RULE = 'all sets of at most two intervals over -inf, 0, 1, 2, inf (pairs ' \
    'of sets sampled), then random interval lists'
BOUNDS = 'at most 4 intervals per operand in the random part'
OPS = {'or': lambda a, b: a or b, 'and': lambda a, b: a and b,
       'sub': lambda a, b: a and not b, 'xor': lambda a, b: a != b}


def cases(rng, tier):
    sm = list(small())
    yield {'k': 'const'}
    for a in sm:
        yield {'k': 'new', 'a': a}
        yield {'k': 'inv', 'a': a}
    for a in sm[:16]:
        for b in sm[:16]:
            for o in OPS:
                yield {'k': o, 'a': a, 'b': b}
    while True:
        a, b = (riv(rng), riv(rng)) if rng.random() < .7 else (
            rng.choice(sm), rng.choice(sm))
        yield {'k': 'new', 'a': a}
        yield {'k': 'inv', 'a': a}
        for o in OPS:
            yield {'k': o, 'a': a, 'b': b}


def app(o, a, b):
    return {'or': lambda: a | b, 'and': lambda: a & b, 'sub': lambda: a - b,
            'xor': lambda: a ^ b}[o]()


def check(c):
    if c['k'] == 'const':
        e, f = Geom1D.empty(), Geom1D.full()
        for x in (-5, 0, mpq(1, 3), 10 ** 30):
            if inside(e.intervals, x):
                return 'empty contains: %s' % x
            if not inside(f.intervals, x):
                return 'full lacks: %s' % x
        return None
    ia = qiv(c['a'])
    for a, b in ia:
        need(a <= b)
    given = [list(p) for p in ia]
    ga = Geom1D(given)
    if given != [list(p) for p in ia]:
        return 'argument modified: %s' % given
    before = list(ga.intervals)
    if c['k'] in ('new', 'inv'):
        r = ga if c['k'] == 'new' else ~ga
        for x in probes(ia):
            if inside(r.intervals, x) != (inside(ia, x) ==
                                          (c['k'] == 'new')):
                return '%s: wrong at %s: %s' % (c['k'], x, r.intervals)
    else:
        ib = qiv(c['b'])
        for a, b in ib:
            need(a <= b)
        gb = G1(c['b'])
        bb = list(gb.intervals)
        r = app(c['k'], ga, gb)
        for x in probes(ia, ib):
            if inside(r.intervals, x) != OPS[c['k']](inside(ia, x),
                                                     inside(ib, x)):
                return '%s: wrong at %s: %s' % (c['k'], x, r.intervals)
        if gb.intervals != bb:
            return '%s: right operand modified' % c['k']
    if ga.intervals != before:
        return '%s: operand modified' % c['k']
    return None


def shrink(c):
    for k in 'ab':
        for i in range(len(c.get(k, []))):
            yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
