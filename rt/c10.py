from util import *
from collections import Counter
from plycutter.geometry.impl2d import segment_tree as m

RULE = 'collections of closed intervals over few end points with all ' \
    'values at and between them; then random rational ones'
BOUNDS = 'all collections of up to 3 intervals with ends in 0..3 first'
MIN_CASES = 3000


def cases(rng, tier):
    iv = [(a, b) for a in range(4) for b in range(a, 4)]
    for n in (0, 1, 2):
        for c in itertools.product(iv, repeat=n):
            yield {'s': [[S(mpq(x)) for x in i] for i in c], 'v': None}
    for _ in range(600):
        c = [rng.choice(iv) for i in range(3)]
        yield {'s': [[S(mpq(x)) for x in i] for i in c], 'v': None}
    while True:
        n = rng.randint(1, 14)
        c = []
        for i in range(n):
            a, b = Q(rq(rng, 5)), Q(rq(rng, 5))
            if rng.random() < .3:
                a, b = mpq(rng.randint(0, 9)), mpq(rng.randint(0, 9))
            if rng.random() < .15:
                b = a
            c.append([S(min(a, b)), S(max(a, b))])
            if rng.random() < .1:
                c.append(c[-1])
        yield {'s': c, 'v': rq(rng, 6)}


def check(c):
    segs = [(Q(a), Q(b), 'i%d' % (i % 5)) for i, (a, b) in
            enumerate(c['s'])]
    need(all(a <= b for a, b, _ in segs))
    e = sorted({x for s in segs for x in s[:2]})
    vs = e + [(a + b) / 2 for a, b in zip(e, e[1:])]
    vs += [e[0] - 1, e[-1] + 1] if e else [mpq(0), mpq(1, 2), mpq(1), mpq(2)]
    if c['v'] is not None:
        vs.append(Q(c['v']))
    arg = list(segs)
    for nm in ('SegmentTree1D', 'SegmentTree1D_Slow'):
        t = getattr(m, nm)(arg)
        if arg != segs:
            return 'collection modified by ' + nm
        for v in vs + vs[:3]:
            w = Counter(s for s in segs if s[0] <= v <= s[1])
            r = Counter(tuple(x) for x in t.stab(v))
            if r != w:
                return '%s: stab(%s) of %s gives %s' % (nm, v, segs,
                                                        sorted(r.items()))
    return None


def nontrivial(c):
    return len(c['s']) > 1


def shrink(c):
    for i in range(len(c['s'])):
        yield dict(c, s=c['s'][:i] + c['s'][i + 1:])
