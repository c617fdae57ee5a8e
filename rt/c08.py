from util import *
from plycutter.geometry.aabb import AABB

RULE = 'random point sequences, boxes and segments on a small half-integer ' \
    'grid (touching and degenerate configurations frequent)'
BOUNDS = 'sampled'


def gp(rng):
    if rng.random() < .8:
        return [S(mpq(rng.randint(-4, 4), 2)) for _ in (0, 1)]
    return [rq(rng, 3) for _ in (0, 1)]


def cases(rng, tier):
    yield {'k': 'con', 'pts': [], 'p': ['0', '0']}
    yield {'k': 'box', 'pts': [], 'q': [['0', '0'], ['1', '1']]}
    yield {'k': 'box', 'q': [], 'pts': [['0', '0'], ['1', '1']]}
    yield {'k': 'seg', 'pts': [], 's': [['0', '0'], ['1', '1']]}
    yield {'k': 'seg', 'pts': [], 's': [['0', '0'], ['0', '0']]}
    while True:
        n = rng.choice([0, 1, 1, 2, 2, 2, 3, 5])
        pts = [gp(rng) for _ in range(n)]
        yield {'k': 'inc', 'pts': pts}
        yield {'k': 'con', 'pts': pts, 'p': gp(rng)}
        yield {'k': 'box', 'pts': pts,
               'q': [gp(rng) for _ in range(rng.choice([0, 1, 2, 2]))]}
        for _ in range(4):
            yield {'k': 'seg', 'pts': pts, 's': [gp(rng), gp(rng)]}


def build(pts):
    b = AABB()
    for i, p in enumerate(pts):
        b.include_point(P(p) if i % 2 == 0 else np.array(P(p), object))
    if len(pts) == 0:
        return b, None
    P_ = [P(p) for p in pts]
    lo = tuple(min(p[i] for p in P_) for i in (0, 1))
    hi = tuple(max(p[i] for p in P_) for i in (0, 1))
    return b, (lo, hi)


def clip(box, s):
    if box is None:
        return False
    t0, t1 = mpq(0), mpq(1)
    for i in (0, 1):
        d = s[1][i] - s[0][i]
        a, b = box[0][i] - s[0][i], box[1][i] - s[0][i]
        if d == 0:
            if a > 0 or b < 0:
                return False
            continue
        x, y = sorted((a / d, b / d))
        t0, t1 = max(t0, x), min(t1, y)
    return t0 <= t1


def check(c):
    b, ref = build(c['pts'])
    if c['k'] == 'inc':
        if ref is None:
            return None
        if tuple(b.lower) != ref[0] or tuple(b.upper) != ref[1]:
            return 'include_point: %s expected %s' % (b, ref)
        for p in c['pts']:
            if not b.contains(P(p)):
                return 'contains its points: %s' % p
        b3 = AABB(b.lower, b.upper)
        far = (ref[1][0] + 3, ref[0][1] - 2)
        arr = np.array(P(c['pts'][0]), object)
        b3.include_point(arr)
        b3.include_point(far)
        if tuple(arr) != P(c['pts'][0]):
            return 'include_point modified the point given'
        if tuple(b.lower) != ref[0] or tuple(b.upper) != ref[1] or \
                b.contains(far):
            return 'extending a box made from another box changed that one'
        b4 = AABB()
        b4.include_point(arr)
        b4.include_point(far)
        if tuple(arr) != P(c['pts'][0]):
            return 'include_point modified the point given'
        b2 = AABB(*ref)
        if not np.all(b2.lower == b.lower) or not np.all(b2.middle ==
                                                         b.middle):
            return 'constructor: %s' % b2
    elif c['k'] == 'con':
        p = P(c['p'])
        exp = ref is not None and all(ref[0][i] <= p[i] <= ref[1][i]
                                      for i in (0, 1))
        if bool(b.contains(p)) != exp:
            return 'contains: expected %s' % exp
    elif c['k'] == 'box':
        b2, r2 = build(c['q'])
        exp = ref is not None and r2 is not None and all(
            ref[0][i] <= r2[1][i] and r2[0][i] <= ref[1][i] for i in (0, 1))
        if bool(b.intersects_aabb(b2)) != exp:
            return 'intersects_aabb: expected %s' % exp
    else:
        s = (P(c['s'][0]), P(c['s'][1]))
        exp = clip(ref, s)
        if bool(b.intersects_segment(s)) != exp:
            return 'intersects_segment: expected %s' % exp
    return None
