"""C20: a failing run reports its error and never yields a pattern."""
import ast
from contracts.sl import *

LEVEL = 'proof'
CAN, CMD = PC + 'canned:', PC + 'command_line:'
GEO = z3.DeclareSort('Geo')
FILE = z3.DeclareSort('File')
dil = z3.Function('dilated', GEO, RS, GEO)
suffix = z3.Function('with.suffix.dxf', FILE, FILE)
opt_file = z3.Const('the.output.file', FILE)
in_file = z3.Const('the.input.file', FILE)
ASSUMPTIONS = [
    'argparse, pathlib, trimesh.load: standard behaviour as modelled in '
    'contracts/c20.py',
    'the stages, the loader and the writer are contracts: they return, or '
    'raise an arbitrary ordinary exception (what the stages do is C16-C18, '
    'C21, C22; the writer C19; dilation C13)',
    'only the writer creates files']


class GeoT(HV):
    def __init__(self, e):
        self.e = e

    def h_attr(self, eng, st, name):
        if name == 'buffer':
            def f(e, s, a, k):
                a = list(a) + list(k.values())
                v = L.lift(a[0]) if len(a) == 1 else None
                if not isinstance(v, Num) or v.kind not in (
                        'mpq', 'int', 'mpz'):
                    yield s, Exc('Exception', 'inexact amount')
                    return
                yield s, GeoT(dil(self.e, R(v)))
            yield st, PyFn(f, 'buffer')
            return
        raise Unsupported('attribute %s of an area' % name)

    def h_ite(self, c, b):
        if not isinstance(b, GeoT):
            raise Unsupported('if-then-else of areas')
        return GeoT(z3.If(c, self.e, b.e))

    def h_subst(self, pairs):
        return GeoT(z3.substitute(self.e, *pairs))


class StrV(HV):
    """a text naming a file"""

    def __init__(self, file):
        self.file = file

    def h_isnone(self):
        return False

    def h_truth(self, eng, st):
        return True

    def h_attr(self, eng, st, name):
        raise Unsupported('text method ' + name)
        yield

    def h_ext(self, eng, st, name, args):
        if name == 'cls:str':
            return self

    def h_class(self, eng):
        return eng.lib.Cls('str')


class PathV(StrV):
    def h_attr(self, eng, st, name):
        if name == 'with_suffix':
            def f(e, s, a, k):
                if tuple(a) != ('.dxf',):
                    yield s, PathV(e.fresh('other.file', FILE))
                else:
                    yield s, PathV(suffix(self.file))
            yield st, PyFn(f, name)
            return
        raise Unsupported('path method ' + name)

    def h_ext(self, eng, st, name, args):
        if name == 'cls:str':
            return StrV(self.file)


class NS(HV):
    """argparse.Namespace"""

    def __init__(self, d):
        self.d = dict(d)

    def h_attr(self, eng, st, name):
        if name in self.d:
            yield st, self.d[name]
        else:
            yield st, Exc('AttributeError', name)

    def h_isnone(self):
        return False

    def h_truth(self, eng, st):
        return True

    def h_ext(self, eng, st, name, args):
        return None


class ParamsV(HV):
    """an options mapping with arbitrary content"""

    def __init__(self, rof):
        self.rof = rof

    def h_attr(self, eng, st, name):
        if name == 'get':
            def f(e, s, a, k):
                yield s, (self.rof if a[0] == 'return_on_failure'
                          else Junk())
            yield st, PyFn(f, 'get')
            return
        raise Unsupported('options.' + name)

    def h_item(self, eng, st, i):
        yield st, (self.rof if i == 'return_on_failure' else Junk())

    def h_contains(self, eng, st, v):
        if v == 'return_on_failure':
            b = eng.fresh('has', B)
            st.assume(z3.Implies(self.rof, b))
            yield st, b
        else:
            yield st, eng.fresh('has', B)

    def h_isnone(self):
        return False

    def h_ite(self, c, b):
        return self


class SB(HV):
    """a decision state of the pipeline"""

    def __init__(self, no, cuts):
        self.no, self.cuts = no, cuts

    def __repr__(self):
        return 'State%d' % self.no

    def h_isnone(self):
        return False

    def h_truth(self, eng, st):
        return True

    def h_class(self, eng):
        return eng.lookup_func(SBM + 'SheetBuild')

    def h_attr(self, eng, st, name):
        if name == 'sheet_chosen':
            yield st, self.cuts
        elif name == 'set':
            def f(e, s, a, k):
                # only the debugging remark: the decisions stay
                if not (len(a) == 2 and a[0] == 'dbg' and not k):
                    raise Unsupported('SheetBuild.set of %r' % (a[:1],))
                yield s, SB(self.no, self.cuts)
            yield st, PyFn(f, 'set')
        elif name in ('check', '_check'):
            def f(e, s, a, k):
                if name == '_check':
                    force = True
                else:
                    a = list(a) + list(k.values())
                    force = a[0] if a else False
                bad = s.copy()
                yield fault(e, bad, 'check of %r' % self)
                for s1, t in e.truth(force, s):
                    for s2, b in e.split(s1, t):
                        if b:
                            s2.ghost['checked'] = s2.ghost.get(
                                'checked', ()) + (self.no,)
                        yield s2, (self if name == '_check' else None)
            yield st, PyFn(f, name)
        elif name == 'sheetplex':
            yield st, Junk()
        else:
            raise Unsupported('SheetBuild.' + name)

    def h_cmp(self, eng, st, op, other, rev):
        raise Unsupported('comparison of states')
        yield

    def h_ite(self, c, b):
        raise Unsupported('if-then-else of states')


_no = [0]


def new_sb(eng):
    _no[0] += 1
    f = z3.Function('chosen%d' % _no[0], SHEETS, GEO)
    return SB(_no[0], MapV(eng.SC['sheetid'], sheet_in,
                           lambda k: GeoT(f(k)), 'chosen'))


def fault(eng, st, where):
    e = Exc('Any', where)
    st.ghost['faults'] = st.ghost.get('faults', ()) + (e,)
    return st, e


def stage(what):
    def c(eng, st, f, args, kw):
        yield fault(eng, st.copy(), what)
        if not any(isinstance(a, SB) or isinstance(a, SPV)
                   for a in list(args) + list(kw.values())):
            raise Unsupported('arguments of ' + what)
        r = new_sb(eng)
        st.ghost['last'] = r
        yield st, r
    return c


class SPV(HV):
    """a sheet model"""

    def __init__(self, eng):
        self.sheets = MapV(eng.SC['sheetid'], sheet_in,
                           lambda k: Junk(), 'sheets')

    def h_attr(self, eng, st, name):
        if name == 'sheets':
            yield st, self.sheets
        else:
            yield st, Junk()

    def h_isnone(self):
        return False

    def h_truth(self, eng, st):
        return True


def c_void(what):
    def c(eng, st, f, args, kw):
        yield fault(eng, st.copy(), what)
        yield st, None
    return c


def x_namespace(eng, st, f, args, kw):
    if args:
        raise Unsupported('Namespace arguments')
    yield st, NS(kw)


def x_vars(eng, st, f, args, kw):
    if not isinstance(args[0], NS):
        raise Unsupported('vars')
    yield st, st.alloc(DictRec(dict(args[0].d)))


class Parser(HV):
    """argparse.ArgumentParser"""

    def h_isnone(self):
        return False

    def h_attr(self, eng, st, name):
        if name == 'add_argument':
            def f(e, s, a, k):
                s.ghost['opts'] = s.ghost.get('opts', ()) + ((a, k),)
                yield s, None
        elif name == 'parse_args':
            def f(e, s, a, k):
                yield from parse(e, s)
        else:
            raise Unsupported('parser.' + name)
        yield st, PyFn(f, name)


def parse(eng, st):
    """every option given or not; the file names and the kerf compensation
    are followed, the other values are arbitrary"""
    outs = [(st, {})]
    for a, k in st.ghost.get('opts', ()):
        names = [x for x in a if isinstance(x, str)]
        long = [x for x in names if x.startswith('--')]
        pos = not any(x.startswith('-') for x in names)
        dest = k.get('dest') or (long or names)[0].lstrip('-').replace(
            '-', '_')
        nxt = []
        for s, d in outs:
            if dest in ('output_file', 'infile', 'final_dilation'):
                given = {'output_file': StrV(opt_file),
                         'infile': StrV(in_file),
                         'final_dilation': Num('mpq', z3.Real('kerf'))
                         }[dest]
                if dest == 'final_dilation':
                    ty = k.get('type')
                    if getattr(ty, 'name', None) not in ('mpq',
                                                         'gmpy2.mpq'):
                        eng.oblige(s, 'main: the kerf compensation is '
                                   'taken exactly as given', False,
                                   CMD + 'main', repr(ty))
                s2 = s.copy()
                s2.ghost['given'] = s2.ghost.get('given', ()) + (dest,)
                nxt.append((s2, dict(d, **{dest: given})))
                if not pos and not k.get('required'):
                    nxt.append((s, dict(d, **{dest: k.get('default')})))
            else:
                nxt.append((s, dict(d, **{dest: Junk()})))
        outs = nxt
    for s, d in outs:
        yield s, NS(d)


def x_path(eng, st, f, args, kw):
    if len(args) != 1 or not isinstance(args[0], StrV):
        raise Unsupported('Path arguments')
    yield st, PathV(args[0].file)


def x_load(eng, st, f, args, kw):
    yield fault(eng, st.copy(), 'trimesh.load')
    if not args or not isinstance(args[0], StrV):
        raise Unsupported('arguments of trimesh.load')
    st.ghost['loaded'] = args[0].file
    yield st, Junk()


def c_sheetplex(eng, st, f, args, kw):
    yield fault(eng, st.copy(), 'create_sheetplex')
    yield st, SPV(eng)


def c_write(eng, st, f, args, kw):
    args = list(args) + list(kw.values())
    if len(args) != 2:
        yield st, Exc('TypeError', 'write_dxf arguments')
        return
    st.ghost['writes'] = st.ghost.get('writes', ()) + (tuple(args),)
    fid = CMD + 'main'
    check_write(eng, st, args, fid)
    yield fault(eng, st.copy(), 'write_dxf')
    yield st, None


def check_write(eng, st, args, fid):
    """the state in which the file is written"""
    g = st.ghost
    x = z3.Const('any sheet', SHEETS)
    eng.oblige(st, 'main: nothing is written after a failure',
               not g.get('faults'), fid)
    eng.oblige(st, 'main: nothing is written when no sheet is found',
               z3.Exists([x], sheet_in(x)), fid)
    last = g.get('last')
    eng.oblige(st, 'main: only a state that passed the forced consistency '
               'check is written', last is not None and
               last.no in g.get('checked', ()), fid)
    name, m = args
    exp = opt_file if 'output_file' in g.get('given', ()) else \
        suffix(in_file)
    eng.oblige(st, 'main: the requested file is written (default: the '
               'input name with .dxf)', isinstance(name, StrV) and
               name.file.eq(exp), fid)
    m = as_map(eng, st, m)
    if last is None:
        return
    if m.ks is None:
        eng.oblige(st, 'main: exactly the sheets are written',
                   z3.Not(z3.Exists([x], sheet_in(x))), fid)
        return
    k = z3.Const('some sheet', SHEETS)
    eng.oblige(st, 'main: exactly the sheets are written',
               bz(m.dom(k)) == sheet_in(k), fid)
    v = m.get(k)
    amount = z3.Real('kerf') if 'final_dilation' in g.get('given', ()) \
        else z3.RealVal('1/20')
    eng.oblige(st.copy().assume(sheet_in(k)),
               'main: the chosen area of the sheet, dilated by the '
               'requested amount', v.e == dil(last.cuts.get(k).e, amount)
               if isinstance(v, GeoT) else False, fid)


def heu_steps(eng):
    g = eng.mod(PC + 'heuristics')
    for nm, e in g.items():
        if e[0] == 'func' and [a.arg for a in e[1].args.args][:2] == [
                'sb', 'params']:
            eng.contracts[HEU + nm] = stage(nm)


def setup(t):
    eng, st = engine(t)
    heu_steps(eng)
    eng.contracts.update({
        SBM + 'create_sheetbuild': stage('create_sheetbuild'),
        CAN + 'do_show': c_void('do_show'),
        PC + 'create_sheetplex:create_sheetplex': c_sheetplex,
        PC + 'writer:write_dxf': c_write})
    eng.extra_ext.update({
        'argparse.Namespace': x_namespace, 'builtins.vars': x_vars,
        'argparse.ArgumentParser': lambda e, s, f, a, k: iter(
            [(s, Parser())]),
        'pathlib.Path': x_path, 'trimesh.load': x_load})
    return eng, st


def canned(t):
    eng, st = setup(t)
    f = t.func(eng, CAN + 'canned_1')
    rof = z3.Bool('return_on_failure')
    n = 0
    for show in (False, True):
        s0 = st.copy()
        for s, v in eng.run(f, s0, [SPV(eng), ParamsV(rof), show], {}):
            fl = s.ghost.get('faults', ())
            if isinstance(v, Exc):
                if v in fl:
                    eng.oblige(s, 'canned_1: with return_on_failure a '
                               'failure is returned', z3.Not(rof), f.key)
                eng.oblige(s, 'canned_1: raises nothing but the error of '
                           'the failing stage', len(fl) == 1 and v is fl[0],
                           f.key, '%s after %s' % (v, fl))
                n += 1
                continue
            d = v.d if isinstance(v, NS) else {}
            if fl:
                eng.oblige(s, 'canned_1: an error of a stage is not '
                           'swallowed', rof, f.key, str(fl))
                eng.oblige(s, 'canned_1: a returned failure is marked as '
                           'failed', d.get('ok') is False, f.key)
                continue
            n += 1
            last = s.ghost.get('last')
            eng.oblige(s, 'canned_1: success is marked as such',
                       d.get('ok') is True, f.key)
            eng.oblige(s, 'canned_1: the state returned is the result of '
                       'the last stage', isinstance(d.get('sheetbuild'), SB)
                       and last is not None and d['sheetbuild'].no ==
                       last.no, f.key)
            eng.oblige(s, 'canned_1: the state returned passed a forced '
                       'consistency check', last is not None and
                       last.no in s.ghost.get('checked', ()), f.key)
            eng.oblige(s, 'canned_1: the cuts are the chosen areas of that '
                       'state', last is not None and
                       d.get('sheet_cuts') is last.cuts, f.key)
    eng.oblige(st.copy(), 'canned_1: success and failures reachable', n > 10)


def main(t):
    eng, st = setup(t)
    f = t.func(eng, CMD + 'main')
    t.funcs.append(CAN + 'canned_1')
    x = z3.Const('any sheet', SHEETS)
    n = 0
    for s, v in eng.run(f, st, [Junk()], {}):
        fl, w = s.ghost.get('faults', ()), s.ghost.get('writes', ())
        if isinstance(v, Exc):
            if fl:
                eng.oblige(s, 'main: ends with the error of the stage that '
                           'failed', len(fl) == 1 and v is fl[0], f.key,
                           '%s after %s' % (v, fl))
                eng.oblige(s, 'main: nothing is written when a stage fails',
                           not w or fl[0].info == 'write_dxf', f.key)
            else:
                eng.oblige(s, 'main: fails by itself only when no sheet is '
                           'found', z3.Not(z3.Exists([x], sheet_in(x))),
                           f.key, str(v))
                eng.oblige(s, 'main: nothing is written when it fails',
                           not w, f.key)
            continue
        n += 1
        eng.oblige(s, 'main: a failure is not swallowed', not fl, f.key,
                   str(fl))
        eng.oblige(s, 'main: succeeds only when a sheet is found',
                   z3.Exists([x], sheet_in(x)), f.key)
        eng.oblige(s, 'main: success writes the pattern once', len(w) == 1,
                   f.key)
        eng.oblige(s, 'main: the input file is the one given', s.ghost.get(
            'loaded') is not None and s.ghost['loaded'].eq(in_file), f.key)
    eng.oblige(st.copy(), 'main: success is reachable', n > 0)


TARGETS = [('canned_1', canned), ('main', main)]
