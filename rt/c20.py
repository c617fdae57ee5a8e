import os
import shutil
import tempfile
import pyrsistent as pyr
import ezdxf
import trimesh
from slu import *
from plycutter import canned, command_line, heuristics, sheetbuild, writer
from plycutter import create_sheetplex as CSP

RULE = 'every stage of the pipeline failing in turn with errors of several ' \
    'classes, an inconsistent final state, an empty model, and successful ' \
    'runs with several options; the stages are stand-ins, the written file ' \
    'is read back'
BOUNDS = 'models of at most three sheets'
MIN_CASES = 60


class Odd(Exception):
    pass


ERRS = {'ValueError': ValueError, 'AssertionError': AssertionError,
        'KeyError': KeyError, 'ZeroDivisionError': ZeroDivisionError,
        'Odd': Odd, 'RuntimeError': RuntimeError, 'TypeError': TypeError,
        'OSError': OSError, 'StopIteration': StopIteration}
FRONT = ['load', 'sheetplex', 'create']
STAGES = [n for n in dir(heuristics)
          if callable(getattr(heuristics, n)) and
          getattr(getattr(heuristics, n), '__module__', '') ==
          heuristics.__name__ and
          getattr(getattr(heuristics, n), '__code__', None) is not None and
          getattr(heuristics, n).__code__.co_varnames[:2] == (
              'sb', 'params')]


def cases(rng, tier):
    for s in FRONT + STAGES + ['final', 'none', 'write']:
        for e in ('ValueError', 'AssertionError', 'KeyError', 'Odd'):
            for what in ('main', 'canned'):
                yield {'at': s, 'nth': 1, 'err': e, 'what': what,
                       'opts': [], 'n': 2}
    for e in ('KeyError', 'AssertionError', 'Odd', 'StopIteration'):
        yield {'at': STAGES[0], 'nth': 1, 'err': e, 'what': 'rof',
               'opts': [], 'n': 2}
    for o in ([], ['-o'], ['--final_dilation', '0.25'],
              ['--final_dilation', '0'], ['--final_dilation', '1/3'],
              ['--final_dilation', '-0.5', '-o']):
        yield {'at': None, 'nth': 1, 'err': '', 'what': 'main', 'opts': o,
               'n': 3}
    while True:
        o = rng.choice([[], ['-o']])
        if rng.random() < .7:
            o = o + ['--final_dilation', S(mpq(rng.randint(-4, 30), 20))]
        yield {'at': rng.choice([None, None] + FRONT + STAGES +
                                ['final', 'none', 'write']),
               'nth': rng.choice([1, 1, 2, 3]),
               'err': rng.choice(sorted(ERRS)),
               'what': rng.choice(['main', 'main', 'canned', 'rof']),
               'opts': o, 'n': rng.choice([1, 2, 3])}


def area(i, by):
    by = mpq(by)
    return rect((by, by), (10 + 3 * i - by, 7 + i - by))


def fake(n, bad=False):
    geo = {'s%d' % i: area(i, 0) for i in range(n)}
    sheets = {k: Sheet(id=k, sides=None, faces=[g, g], slices_max=g)
              for k, g in geo.items()}
    sp = SheetPlex(sheets=pyr.pmap(sheets), intersections=pyr.pmap({}))
    ch = {'s%d' % i: area(i, 1) for i in range(n)}
    ok = {'s%d' % i: area(i, 2 if bad else 0) for i in range(n)}
    return sp, SB.SheetBuild(
        sheetplex=sp, sheet_chosen=pyr.pmap(ch), sheet_ok=pyr.pmap(ok),
        interside_chosen=pyr.pmap({}), interside_ok=pyr.pmap({}))


def check(c):
    n = 0 if c['at'] == 'none' else c['n']
    sp, sb0 = fake(n)
    bad = fake(n, True)[1]
    fired, seen, last = [], [], []
    err = ERRS.get(c['err'], ValueError)('injected')

    def hit(name):
        seen.append(name)
        if c['at'] == name and seen.count(name) == c['nth']:
            fired.append(err)
            raise err

    saved = []

    def patch(mod, name, f):
        if hasattr(mod, name):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, f)

    def stage(name):
        def f(sb, params=None):
            hit(name)
            # a different state after every stage
            r = sb.set('sheet_chosen', pyr.pmap({
                k: area(i, len(seen) * mpq(1, 100))
                for i, k in enumerate(sorted(sb.sheet_chosen))}))
            last[:] = [r]
            if c['at'] == 'final' and name == STAGES_USED[-1]:
                last[:] = [bad]
                fired.append(None)
                return bad
            return r
        return f

    def create(sp_, params):
        hit('create')
        last[:] = [sb0]
        return sb0

    def load(*a, **k):
        hit('load')
        return object()

    def mk(mesh, params):
        hit('sheetplex')
        return sp

    tmp = tempfile.mkdtemp(prefix='c20.')
    old = os.getcwd()
    try:
        for s in STAGES:
            patch(heuristics, s, stage(s))
        patch(sheetbuild, 'create_sheetbuild', create)
        patch(trimesh, 'load', load)
        patch(CSP, 'create_sheetplex', mk)
        real = writer.write_dxf

        def write(*a, **k):
            hit('write')
            return real(*a, **k)
        patch(writer, 'write_dxf', write)
        os.chdir(tmp)
        par = dict(PARAMS)
        if c['what'] != 'main':
            if c['what'] == 'rof':
                par['return_on_failure'] = True
            try:
                r = canned.canned_1(sp, par)
            except Exception as e:
                if c['what'] == 'rof' and fired:
                    return 'canned_1: the failure is raised although ' \
                        'return_on_failure is set'
                return judge_exc(c, e, fired, 'canned_1')
            if c['at'] in ('load', 'sheetplex', 'none', 'write'):
                return None
            if fired:
                if c['what'] != 'rof':
                    return 'canned_1: the failure of %s is swallowed' % \
                        c['at']
                return 'canned_1: a failure is marked as success' \
                    if r.ok else None
            if not r.ok:
                return 'canned_1: success is marked as failure'
            if r.sheetbuild.sheet_chosen != last[0].sheet_chosen:
                return 'canned_1: not the state of the last stage'
            if r.sheet_cuts is not r.sheetbuild.sheet_chosen:
                return 'canned_1: the cuts are not the chosen areas'
            return None
        args = []
        amount = mpq(1, 20)
        out = os.path.join(tmp, 'model.dxf')
        o = list(c['opts'])
        if '-o' in o:
            out = os.path.join(tmp, 'other.name.out')
            args += ['-o', out]
            o.remove('-o')
        if o:
            amount = mpq(o[1])
            args.append('--final_dilation=' + o[1])
        infile = os.path.join(tmp, 'model.stl')
        open(infile, 'w').close()
        try:
            command_line.main(args + [infile])
        except (Exception, SystemExit) as e:
            r = judge_exc(c, e, fired, 'main')
            if r is None and os.path.exists(out):
                return 'main: a file is written although %s fails' % c['at']
            return r
        if fired:
            return 'main: the failure of %s is swallowed' % c['at']
        if c['at'] == 'none':
            return 'main: no sheet is found, but it ends normally'
        if sorted(os.listdir(tmp)) != sorted(
                ['model.stl', os.path.basename(out)]):
            return 'main: files %s' % os.listdir(tmp)
        exp = sorted(rings(g.buffer(amount))
                     for g in last[0].sheet_chosen.values())
        got = sorted(read(out))
        if len(exp) != len(got) or any(
                abs(a - b) > 1e-6 for p, q in zip(exp, got)
                for a, b in zip(p, q)):
            return 'main: the file has parts %s instead of %s' % (got, exp)
        return None
    finally:
        os.chdir(old)
        for m, k, v in reversed(saved):
            setattr(m, k, v)
        shutil.rmtree(tmp)


def judge_exc(c, e, fired, where):
    if fired == [None]:
        if not isinstance(e, AssertionError):
            return '%s: an inconsistent final state ends with %r' % (where, e)
        return None
    if fired:
        return None if e is fired[0] else \
            '%s: ends with %r instead of the error of %s' % (
                where, e, c['at'])
    if c['at'] == 'none' and where == 'main':
        return None
    return '%s: fails by itself: %r' % (where, e)


def rings(g):
    pl = g.polygons()
    assert len(pl) == 1
    p = [(float(x), float(y)) for x, y in pl[0].exterior()]
    return size(p)


def size(p):
    a = sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1]
            for i in range(len(p))) / 2
    xs, ys = [q[0] for q in p], [q[1] for q in p]
    return (max(xs) - min(xs), max(ys) - min(ys), abs(a))


def read(fn):
    d = ezdxf.readfile(fn)
    out = []
    for e in d.modelspace():
        p = [(v[0], v[1]) for v in e.get_points()]
        if p[0] == p[-1]:
            p = p[:-1]
        out.append(size(p))
    return out


def used():
    """the stages canned_1 runs, in order"""
    sp, sb0 = fake(1)
    seen = []
    saved = {s: getattr(heuristics, s) for s in STAGES}
    cs = sheetbuild.create_sheetbuild
    try:
        for s in STAGES:
            setattr(heuristics, s, lambda sb, params=None, s=s: (
                seen.append(s), sb)[1])
        sheetbuild.create_sheetbuild = lambda *a: sb0
        try:
            canned.canned_1(sp, dict(PARAMS))
        except Exception:
            pass
    finally:
        sheetbuild.create_sheetbuild = cs
        for s, f in saved.items():
            setattr(heuristics, s, f)
    return seen or STAGES


STAGES_USED = used()


def nontrivial(c):
    return c['at'] is not None


def shrink(c):
    if c['n'] > 1:
        yield dict(c, n=1)
    if c['opts']:
        yield dict(c, opts=[])
