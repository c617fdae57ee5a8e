"""Running the verification targets of one property."""
import ast
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import z3
from . import eng as _eng
from . import solve
from .val import *
from .eng import State, Exc

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.setrecursionlimit(20000)


class Target:
    """One function (or lemma) under contract."""

    def __init__(self, name, tier='quick'):
        self.name = name
        self.tier = tier
        self.engines = []
        self.cases = []
        self.funcs = []
        self.assumed = set()
        self.covers = []

    def engine(self, **kw):
        e = _eng.Engine(repo=REPO, **kw)
        e.timeout = 20000 if self.tier == 'quick' else 60000
        self.engines.append(e)
        return e

    def assume_note(self, *txt):
        self.assumed.update(txt)

    def replay(self, eng, fn):
        """fn(model) -> case (json-able) for the run-time replay"""
        def on_model(name, model):
            try:
                c = fn(model)
                if c is not None and len(self.cases) < 10:
                    self.cases.append({'obligation': name, 'case': c})
            except Exception:
                pass
        eng.on_model = on_model

    def func(self, eng, key):
        self.funcs.append(key)
        return eng.lookup_func(key)

    def outcomes(self, eng, func, st, args, kw=None, name=None,
                 may_raise=()):
        """Run func; exceptions outside may_raise (and reachable) are failed
        obligations; yields the normal outcomes."""
        name = name or func.qual
        n = 0
        nexc = 0
        for s, v in eng.run(func, st, args, kw):
            if isinstance(v, Exc):
                ok = may_raise is True or v.name in may_raise
                if not ok:
                    nexc += 1
                    eng.oblige(s, '%s: raises no %s' % (name, v.name), False,
                               func.key, v.info)
                    continue
                yield s, v
                continue
            n += 1
            yield s, v
        if nexc == 0 and not eng.quiet:
            eng.obls.append(_eng.Obligation(
                '%s: every call made satisfies its requirements and nothing '
                'is raised%s' % (name, '' if not may_raise else
                                 ' beyond what is specified'), True,
                'proved', 'paths', 0.0))
        self.covers.append((name, n))
        if n == 0 and may_raise is not True:
            eng.obls.append(_eng.Obligation(
                '%s: normal completion is reachable' % name, False,
                'vacuous', '', 0.0))


def _num(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return str(v.as_long())
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return '%d/%d' % (f.numerator, f.denominator)
    if z3.is_algebraic_value(v):
        f = v.approx(20).as_fraction()
        return '%d/%d' % (f.numerator, f.denominator)
    return '0'


def mval(model, v):
    """value -> jsonable (rationals as strings)"""
    if isinstance(v, tuple):
        return [mval(model, x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Num):
        return _num(model, v.e)
    if isinstance(v, X):
        def t(b):
            return b if isinstance(b, bool) else z3.is_true(
                model.eval(b, model_completion=True))
        if t(v.nan):
            return 'nan'
        if t(v.neg):
            return '-inf'
        if t(v.pos):
            return 'inf'
        return _num(model, v.v)
    if isinstance(v, z3.BoolRef):
        return z3.is_true(model.eval(v, model_completion=True))
    if isinstance(v, z3.ArithRef):
        return _num(model, v)
    if isinstance(v, SeqV):
        n = v.seq.n
        if not isinstance(n, int):
            n = int(model.eval(zi(n), model_completion=True).as_long())
        return [mval(model, v.seq.get(i)) for i in range(min(n, 12))]
    return None


def _work(fn, name, tier, q):
    t = Target(name, tier)
    t0 = time.time()
    err = None
    z3.set_param('memory_max_size', 6000)
    try:
        fn(t)
    except Unsupported as e:
        err = 'outside the verified subset: %s' % e
    except RecursionError:
        err = 'outside the verified subset: recursion too deep'
    except Exception as e:
        err = 'the verifier could not process the code: %s: %s' % (
            type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    obls = []
    inl, cc, ext, notes, dropped = set(), set(), set(), set(), []
    for e in t.engines:
        for o in e.obls:
            obls.append({'name': o.name, 'ok': bool(o.ok),
                         'status': o.status, 'backend': o.backend,
                         'secs': round(o.secs, 3), 'where': o.where,
                         'detail': str(o.detail)[:300],
                         'model': str(o.model)[:3000] if o.model is not None
                         and not o.ok else None})
        inl |= e.inlined
        cc |= e.called_contracts
        ext |= e.ext_used
        notes |= e.notes
        dropped += e.loop_log
    q.put({'target': name, 'obls': obls, 'error': err, 'cases': t.cases,
           'inlined': sorted(inl), 'contracts': sorted(cc),
           'ext': sorted(ext), 'notes': sorted(notes),
           'assumed': sorted(t.assumed), 'funcs': t.funcs,
           'covers': t.covers, 'secs': round(time.time() - t0, 2),
           'dropped': dropped, 'stats': dict(solve.STATS)})


def run_targets(targets, tier='quick', limit=None, jobs=None):
    """targets: list of (name, fn). returns list of result dicts"""
    jobs = jobs or min(8, os.cpu_count() or 4)
    limit = limit or (400 if tier == 'quick' else 780)
    ctx = mp.get_context('fork')
    t0 = time.time()
    todo = list(targets)
    running = []
    results = {}
    while todo or running:
        while todo and len(running) < jobs:
            name, fn = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_work, args=(fn, name, tier, q))
            p.start()
            running.append((p, q, name, time.time()))
        nxt = []
        for p, q, name, ts in running:
            if not q.empty():
                results[name] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                if not q.empty():
                    results[name] = q.get()
                    continue
                results[name] = dead(name, 'the verifier process ended '
                                     '(exit %s)' % p.exitcode)
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                results[name] = dead(name, 'time limit of %d s reached'
                                     % limit)
            else:
                nxt.append((p, q, name, ts))
        running = nxt
        time.sleep(0.02)
    return [results[n] for n, _ in targets]


def dead(name, why):
    return {'target': name, 'obls': [], 'error': why, 'cases': [],
            'inlined': [], 'contracts': [], 'ext': [], 'notes': [],
            'assumed': [], 'funcs': [], 'covers': [], 'secs': 0.0,
            'dropped': [], 'stats': {}}
