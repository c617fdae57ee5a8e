"""Execute the contracts of one property against the real code.

A property module defines
  cases(rng, tier)   generator of json-able cases (endless or finite)
  check(case)        None, or a string saying what is wrong
  key(case)          (optional) what makes a case distinct
  RULE, BOUNDS       text
"""
import argparse
import importlib
import json
import random
import sys
import time
import traceback


class Skip(Exception):
    """the case does not satisfy the precondition"""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--hint')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    sys.modules['run'] = sys.modules['__main__']
    m = importlib.import_module(a.pid.lower())
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        bad = 0
        for v in d['failing_inputs']:
            r = one(m, v['case'])
            print(json.dumps(v['case'])[:500], '->', r)
            bad += r is not None
        sys.exit(1 if bad else 0)
    res = {'violations': [], 'evaluations': 0, 'nontrivial': 0,
           'rule': getattr(m, 'RULE', ''), 'bounds': getattr(m, 'BOUNDS', ''),
           'samples': []}
    t0 = time.time()
    seen = set()
    keys = {}

    def gen():
        if a.hint:
            with open(a.hint) as f:
                for c in json.load(f):
                    for c2 in (m.from_model(c) if hasattr(m, 'from_model')
                               else [c]):
                        yield c2
        yield from m.cases(random.Random(a.seed), a.tier)
    tv = None
    for c in gen():
        if time.time() - t0 > a.budget and res['evaluations'] >= getattr(
                m, 'MIN_CASES', 0):
            break
        if tv and time.time() - tv > 4:
            break
        k = json.dumps(c, sort_keys=True)
        if k in seen:
            continue
        if len(seen) < 2000000:
            seen.add(k)
        try:
            r = one(m, c)
        except Skip:
            continue
        res['evaluations'] += 1
        if getattr(m, 'nontrivial', lambda c: True)(c):
            res['nontrivial'] += 1
            if len(res['samples']) < 5:
                res['samples'].append(k[:300])
        if r is not None:
            tv = tv or time.time()
            kind = r.split(':')[0]
            keys[kind] = keys.get(kind, 0) + 1
            if keys[kind] <= 2:
                c2 = shrink(m, c) if hasattr(m, 'shrink') else c
                res['violations'].append({'key': r[:500], 'case': c2,
                                          'what': r[:2000]})
            if len(keys) >= 6 or sum(keys.values()) > 20:
                break
    res['wall_s'] = time.time() - t0
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, indent=1)
    else:
        print(json.dumps(res, indent=1)[:6000])


def one(m, c):
    try:
        return m.check(c)
    except Skip:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/plycutter/' in f.filename]
        if not where or '/rt/' in tb[-1].filename:
            if not where:
                raise
        f = (where or tb)[-1]
        return 'unexpected %s: %s at %s:%s' % (
            type(e).__name__, e, f.filename.split('/plycutter/', 1)[-1],
            f.name)


def shrink(m, c, limit=5.0):
    t0 = time.time()
    again = True
    while again and time.time() - t0 < limit:
        again = False
        for c2 in m.shrink(c):
            if time.time() - t0 > limit:
                break
            try:
                if one(m, c2) is not None:
                    c = c2
                    again = True
                    break
            except Exception:
                continue
    return c


if __name__ == '__main__':
    main()
