#!/usr/bin/env python3
"""Decide one property:  python3-vt check.py C05 [--tier quick|thorough]

1. Proof: the functions of /repo under contract are read from the current
   source, and every obligation is discharged by z3/cvc5.
2. Run time: the contracts are executed against the real code: the
   verifier's counterexamples first, then a directed search (longer when an
   obligation failed); for functions outside the verifier's reach this is the
   bounded stand-in.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'


if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def load_known(pid):
    fn = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)
                if k['property'] == pid and k['status'] == 'known']


def run_rt(pid, tier, seed, budget, cases, outdir):
    """-> dict result of the run-time part"""
    fn = os.path.join(HERE, 'rt', pid.lower() + '.py')
    if not os.path.exists(fn):
        return None
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + ':' + os.path.join(HERE, 'rt'),
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
    hint = os.path.join(outdir, 'hint_%s.json' % pid)
    with open(hint, 'w') as f:
        json.dump(cases, f)
    out = os.path.join(outdir, 'rt_%s.json' % pid)
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.Popen(
        [VENV, os.path.join(HERE, 'rt', 'run.py'), pid, '--tier', tier,
         '--seed', str(seed), '--budget', str(budget), '--hint', hint,
         '--out', out], env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True, start_new_session=True)
    return p, out


def wait_rt(h, limit):
    if h is None:
        return None
    p, out = h
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        txt, _ = p.communicate()
        txt = (txt or '') + '\n[time limit]'
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
        r['log'] = (txt or '')[-4000:]
        return r
    return {'crash': True, 'log': (txt or '')[-4000:], 'violations': [],
            'evaluations': 0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-rt', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    outdir = os.path.join(HERE, 'evidence', 'work')
    os.makedirs(outdir, exist_ok=True)
    meta = importlib.import_module('contracts.' + pid.lower())
    from pyvc import target
    results = []
    early = None
    if not a.no_proof:
        results = target.run_targets(meta.TARGETS, a.tier)
        # a solver that gave up (not a refutation) gets a second, longer try,
        # unless running the code shows a failing input already
        again = [r['target'] for r in results if not r['error'] and
                 any(not o['ok'] for o in r['obls']) and
                 all(o['ok'] or o['status'] == 'unknown' for o in r['obls'])]
        if again and not a.no_rt:
            b = getattr(meta, 'RT_FAILED', 90)
            early = wait_rt(run_rt(pid, a.tier, seed, b, [
                c['case'] for r in results for c in r['cases']], outdir),
                b + 200)
        if again and not (early and early.get('violations')) and \
                time.time() - t0 < 400:
            d = dict(meta.TARGETS)
            r2 = {r['target']: r for r in target.run_targets(
                [(n, d[n]) for n in again], 'thorough', limit=200)}
            results = [r if r['target'] not in r2 or r2[r['target']]['error']
                       else r2[r['target']] for r in results]
    obls = []
    failed = []
    cases = []
    for r in results:
        for o in r['obls']:
            o['target'] = r['target']
            obls.append(o)
            if not o['ok']:
                failed.append({'target': r['target'], 'obligation':
                               o['name'], 'status': o['status'],
                               'detail': o['detail'], 'model': o['model']})
        if r['error']:
            failed.append({'target': r['target'], 'obligation':
                           '%s: can be verified' % r['target'],
                           'status': r['error'], 'detail': '',
                           'model': None})
        elif not r['obls']:
            failed.append({'target': r['target'], 'obligation':
                           '%s: generates obligations' % r['target'],
                           'status': 'no obligations', 'detail': '',
                           'model': None})
        cases += [c['case'] for c in r['cases']]
        if a.v:
            print('%-40s %5.1fs %3d obligations %s %s' % (
                r['target'], r['secs'], len(r['obls']), r['error'] or '',
                r['dropped']))
            agg = {}
            for o in r['obls']:
                k = (o['ok'], o['name'])
                n, sec, x = agg.get(k, (0, 0, o))
                agg[k] = (n + 1, max(sec, o['secs']), x)
            for (ok, nm), (n, sec, o) in agg.items():
                print('    %s %s x%d [max %.2fs]%s' % (
                    'ok  ' if ok else 'FAIL', nm, n, sec, '' if ok else
                    ' ' + o['status'] + ' ' + o['detail'] + ' ' +
                    (o['model'] or '')[:400].replace('\n', ' ')))
    budget = getattr(meta, 'RT_BUDGET', {}).get(a.tier, 8 if a.tier ==
                                                'quick' else 60)
    if failed:
        budget = max(budget, getattr(meta, 'RT_FAILED', 90))
    if early is not None:
        rt = early
    else:
        h = None if a.no_rt else run_rt(pid, a.tier, seed, budget, cases,
                                        outdir)
        rt = wait_rt(h, budget + 200)
    # ------------------------------------------------------------- verdict
    known = load_known(pid)
    kf = []
    viol = []
    for v in (rt or {}).get('violations', []):
        m = [k for k in known if k['match'] in v['key']]
        if m:
            kf.append((m[0], v))
        else:
            viol.append(v)
    rep = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
    code = 0
    if os.path.exists(rep):
        os.unlink(rep)
    seen = set()
    for k, v in kf:
        if k['match'] not in seen:
            seen.add(k['match'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    crashed = rt is not None and rt.get('crash')
    if crashed and not failed:
        failed.append({'target': 'run-time contracts', 'obligation':
                       'the run-time contracts can be executed against the '
                       'code', 'status': 'crash',
                       'detail': rt['log'][-1500:], 'model': None})
    if viol or failed:
        code = 1
        with open(rep, 'w') as f:
            json.dump({'property': pid, 'failing_inputs': viol[:5],
                       'failed_obligations': failed[:40],
                       'replay_cmd': 'PYTHONPATH=/repo:/verif/rt %s '
                       '/verif/rt/run.py %s --replay %s' % (VENV, pid, rep)},
                      f, indent=1)
        for v in viol[:3]:
            print('failing input: %s' % json.dumps(v)[:1500])
        for x in failed[:8]:
            print('failed obligation [%s] %s (%s %s)' % (
                x['target'], x['obligation'], x['status'], x['detail'][:200]))
        print('VIOLATION property=%s replay=%s%s' % (
            pid, rep, '' if viol else ' no-failing-input-found'))
    # ------------------------------------------------------------- evidence
    by = {}
    secs = 0.0
    for o in obls:
        if o['ok']:
            by[o['backend']] = by.get(o['backend'], 0) + 1
        secs += o['secs']
    level = meta.LEVEL
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': level,
          'wall_s': round(time.time() - t0, 1)}
    cov = {}
    assumptions = list(getattr(meta, 'ASSUMPTIONS', []))
    inl = sorted({x for r in results for x in r['inlined']})
    cc = sorted({x for r in results for x in r['contracts']})
    ext = sorted({x for r in results for x in r['ext']})
    notes = sorted({x for r in results for x in r['notes']} |
                   {x for r in results for x in r['assumed']})
    funcs = sorted({x for r in results for x in r['funcs']})
    if obls:
        cov.update({
            'obligations': len(obls),
            'discharged': sum(o['ok'] for o in obls),
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (
                pid, a.tier),
            'trusted_base': [
                'the VC generator /verif/pyvc (Python semantics)',
                'z3 5.3.2 and cvc5 1.1.2',
                'models of the library functions used: ' + ', '.join(ext)],
        })
        cov['functions_under_contract'] = funcs
        cov['callees_by_contract'] = cc
        cov['callees_executed_by_body'] = inl
        cov['by_backend'] = by
        cov['solver_seconds'] = round(secs, 1)
        cov['targets'] = [{'name': r['target'], 'obligations': len(r['obls']),
                           'seconds': r['secs'], 'error': r['error'],
                           'normal_paths': r['covers'],
                           'invariants_not_inductive': [
                               d[2] for d in r['dropped']]}
                          for r in results]
    if rt:
        rtc = {'evaluations': rt.get('evaluations', 0),
               'distinct_nontrivial': rt.get('nontrivial', 0),
               'rule': rt.get('rule', ''),
               'samples': rt.get('samples', [])[:5],
               'bounds': rt.get('bounds', ''),
               'role': getattr(meta, 'RT_ROLE', 'search for failing inputs '
                               'and conformance of the trusted models; not '
                               'counted as proof')}
        if level == 'exploration':
            cov.update({k: rtc[k] for k in ('evaluations',
                                            'distinct_nontrivial', 'rule',
                                            'samples')})
            cov['bounds'] = rtc['bounds']
        cov['run_time'] = rtc
    if level == 'other':
        cov['explanation'] = meta.EXPLANATION
    ev['coverage'] = cov
    ev['assumptions'] = assumptions + notes
    ev['violations'] = len(viol) + (1 if failed and not viol else 0)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print('%s: %d obligations discharged, %s run-time evaluations, '
              '%.0f s' % (pid, len(obls), (rt or {}).get('evaluations', 0),
                          time.time() - t0))
    sys.exit(code)


if __name__ == '__main__':
    main()
