"""Entry point of every check:  python3-vt -m symx.check PROPERTY [quick|thorough]

Explores all jobs of harness/PROPERTY.py, writes evidence/PROPERTY.json, prints
VIOLATION / KNOWN-FINDING lines.  Exit 0 held, 1 violation, 2 error of the check."""
from __future__ import annotations
import importlib.util
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
EVID = os.environ.get('SYMX_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

_MOD = None
_CFG = None
_REP = None


def load_harness(prop):
    from . import rewrite
    sys.path.insert(0, VERIF)
    hdir = os.path.join(VERIF, 'harness')
    roots = {'DHParser': REPO}
    for fn in os.listdir(hdir):
        if fn.endswith('.py'):
            roots[fn[:-3]] = hdir
    finder = rewrite.install(roots, exclude={'DHParser.externallibs'})
    import importlib
    mod = importlib.import_module(prop)
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod, finder


def work(args):
    jobname, = args
    global _REP
    from . import driver
    job = _CFG['jobs'][jobname]
    if _REP is None:
        _REP = driver.Replayer(_CFG['prop'], REPO)
    try:
        return driver.explore(job, getattr(_MOD, job.fn), _REP, _CFG['deadline'], _CFG['seed'],
                              _CFG['known'])
    except BaseException as e:
        return {'job': jobname, 'errors': ['engine: ' + traceback.format_exc(limit=-12)],
                'violations': [], 'paths': 0, 'aborted': 0, 'queries': 0, 'solver_s': 0,
                'checks': 0, 'trivial': 0, 'asserted': 0, 'functions': [], 'wall': 0,
                'exhaustive': False, 'replayed': 0, 'tags': [], 'samples': [], 'known': {},
                'inconclusive': [], 'decisions': 0}


def write_setup_failure(prop, tier, seed, text):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                   'coverage': {'states': 1, 'transitions': 0,
                                'traces_validated_against_impl': 1,
                                'samples': [text[-2000:]],
                                'explanation': 'the code under test fails while the harness is '
                                               'set up', 'exhaustive': False},
                   'assumptions': [], 'wall_s': 0, 'violations': 1}, f, indent=1)


def main(argv):
    global _MOD, _CFG
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        os.execve(sys.executable, [sys.executable, '-m', 'symx.check'] + argv, env)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and argv[1] in ('quick', 'thorough') \
        else os.environ.get('VERIF_TIER', 'quick')
    only = [a[6:] for a in argv if a.startswith('--job=')]
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = int(os.environ.get('SYMX_BUDGET', '600' if tier == 'quick' else '7200'))
    sys.setrecursionlimit(20000)
    try:
        mod, finder = load_harness(prop)
        _MOD = mod
        jobs = mod.jobs(tier)
    except Exception:
        # does the code under test fail to import / initialise outside the engine, too?
        tb = traceback.format_exc()
        import subprocess
        from . import driver
        r = subprocess.run([driver.VENV, os.path.join(VERIF, 'symx', 'replay.py'), '--setup', prop],
                           env=dict(os.environ, PYTHONPATH=REPO), capture_output=True, text=True)
        print(tb)
        if r.returncode == 3:
            # the public API that the property needs is unusable in the real code
            d = os.path.join(EVID, 'counterexamples')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-setup.json' % prop)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'fn': '', 'params': {}, 'assignment': {},
                           'label': 'set-up fails', 'detail': r.stdout}, f, indent=1)
            write_setup_failure(prop, tier, seed, r.stdout)
            print(r.stdout)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('ERROR: harness could not be set up')
        return 2
    jobs = [j for j in jobs if not only or any(o in j.name for o in only)]
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    known = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            known = [k for k in json.load(f)['findings'] if k['property'] == prop]
    _CFG = {'prop': prop, 'jobs': {j.name: j for j in jobs}, 'deadline': t0 + budget,
            'seed': seed, 'known': {k['id'] for k in known}}
    nproc = int(os.environ.get('SYMX_PROCS', '8'))
    order = sorted(jobs, key=lambda j: -j.weight)
    results = []
    ctxm = multiprocessing.get_context('fork')
    pool = ctxm.Pool(min(nproc, max(1, len(jobs))))
    stop = False
    try:
        for r in pool.imap_unordered(work, [(j.name,) for j in order]):
            results.append(r)
            if verbose:
                print('%-40s paths %5d aborted %4d queries %6d solver %6.1fs wall %6.1fs '
                      'asserts %d (%d by solver) replays %d%s%s' % (
                          r['job'], r['paths'], r['aborted'], r['queries'], r['solver_s'],
                          r['wall'], r['asserted'], r['checks'], r['replayed'],
                          '' if r['exhaustive'] else ' CAPPED',
                          ' VIOL' if r['violations'] else ''), flush=True)
                for e in r['errors'][:2]:
                    print('   ERR', e)
                if r['inconclusive']:
                    print('   INC', len(r['inconclusive']), r['inconclusive'][0],
                          r.get('unsupported_tb', ''))
            if r['violations']:
                stop = True
                break
    finally:
        pool.terminate()
        pool.join()
    # ---- known findings: re-run their reproducers on the real code
    errors = [(r['job'], e) for r in results for e in r['errors']]
    violations = [v for r in results for v in r['violations']]
    from . import driver
    rep = driver.Replayer(prop, REPO)
    known_lines = []
    if not stop:
        for k in known:
            j = driver.Job('known', k['fn'], k['params'])
            r = rep.run(j, k['assignment'], ignore_known=True)
            if r['status'] in ('violation', 'exception'):
                known_lines.append('KNOWN-FINDING: property=%s %s: %s' % (
                    prop, k['id'], k['what']))
    rep.close()
    # ---- vacuity
    if not stop and not errors:
        for r in results:
            job = _CFG['jobs'][r['job']]
            if r['exhaustive'] and (r['paths'] == 0 or r['asserted'] == 0):
                errors.append((r['job'], 'vacuous: no path reached an assertion'))
            missing = set(job.tags) - set(r['tags'])
            if missing and r['exhaustive'] and not r['inconclusive']:
                errors.append((r['job'], 'vacuous: never reached %s' % sorted(missing)))
    wall = time.time() - t0
    funcs = sorted({f for r in results for f in r['functions'] if f.startswith('DHParser')})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in results),
            'transitions': sum(r['decisions'] for r in results),
            'traces_validated_against_impl': sum(r['replayed'] for r in results),
            'samples': [s for r in results for s in r['samples']][:12],
            'explanation': 'states = feasible paths of the real code explored (each path is a '
                           'set of inputs characterised by an SMT path condition); transitions '
                           '= branch decisions on those paths; every assertion on every path '
                           'was refuted-negated by z3 or folded to true; '
                           'traces_validated_against_impl = path models re-run on the '
                           'unmodified code with equal observations.',
            'exhaustive': all(r['exhaustive'] for r in results) and not stop,
            'functions_encoded': funcs,
            'queries': sum(r['queries'] for r in results),
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'assertions_reached': sum(r['asserted'] for r in results),
            'assertions_needing_solver': sum(r['checks'] for r in results),
            'infeasible_paths': sum(r['aborted'] for r in results),
            'inconclusive_paths': sum(len(r['inconclusive']) for r in results),
            'reachability_witnesses': sorted({t for r in results for t in r['tags']}),
            'bounds': {j.name: j.bounds for j in jobs if j.bounds},
            'jobs': [{'job': r['job'], 'paths': r['paths'], 'queries': r['queries'],
                      'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall'], 2),
                      'exhaustive': r['exhaustive'], 'assertions': r['asserted']}
                     for r in sorted(results, key=lambda r: r['job'])],
            'known_findings_reproduced': len(known_lines),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'z3 decides the generated formulas correctly',
            'symbolic str/int/re proxies follow CPython semantics (validated per path by '
            'replaying models on the unmodified code)'],
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    inc = ev['coverage']['inconclusive_paths']
    print('%s %s: %d jobs, %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, '
          '%d models replayed, wall %.1fs%s%s' % (
              prop, tier, len(results), ev['coverage']['states'],
              ev['coverage']['assertions_reached'],
              ev['coverage']['assertions_needing_solver'], ev['coverage']['queries'],
              ev['coverage']['solver_s'], ev['coverage']['traces_validated_against_impl'], wall,
              '' if ev['coverage']['exhaustive'] else ' [NOT EXHAUSTIVE]',
              ' [%d INCONCLUSIVE PATHS]' % inc if inc else ''))
    if violations:
        for v in violations:
            d = os.path.join(EVID, 'counterexamples')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (prop, ''.join(
                c if c.isalnum() else '_' for c in v['job'])))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'job': v['job'], 'fn': v['fn'],
                           'params': v['params'], 'assignment': v['assignment'],
                           'label': v['label'], 'detail': v['detail'],
                           'input': driver.show(v['assignment']),
                           'how_to_replay': '/opt/venv/bin/python symx/replay.py ' + path},
                          f, indent=1)
            print('  %s: %s  input=%s' % (v['job'], v['label'], driver.show(v['assignment'])))
            if v['detail']:
                print('    ' + str(v['detail']).replace('\n', '\n    ')[:1500])
            if v.get('replay'):
                print('    replay: %s %s' % (v['replay'].get('label'),
                                             str(v['replay'].get('detail'))[:800]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for j, e in errors[:10]:
            print('ERROR in %s: %s' % (j, e))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
