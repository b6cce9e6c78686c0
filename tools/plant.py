"""Confirm planted bugs:  python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS: list of dict(id, prop, edits=[(file, old, new), ...], demo, needs, breaks).
For each: copy /repo to a scratch directory, apply the edits, check that the demo passes without
and fails with them and that the stable tests still pass, write seeded/<id>/, run the check."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(b, run_tests=True, run_check=True):
    out = []
    root = '/tmp/plant/' + b['id']
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    repo = root + '/repo'
    sh('cp -a /repo %s' % repo)
    try:
        for fn, old, new, *nth in b['edits']:
            p = os.path.join(repo, fn)
            s = open(p).read()
            if s.count(old) != 1 and not nth:
                return b['id'], ['EDIT does not apply uniquely (%d): %s' % (s.count(old), old[:60])]
            parts = s.split(old)
            k = nth[0] if nth else 1     # the k-th occurrence
            open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:]))
        diff = sh('git -C %s diff' % repo).stdout
        sd = os.path.join(VERIF, 'seeded', b['id'])
        tmp = root + '/seed'
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(tmp + '/meta.json', 'w'), indent=1)
        r = sh('sh %s/demo.sh' % tmp, cwd='/repo', timeout=300)
        if r.returncode != 0:
            return b['id'], ['DEMO FAILS ON ORIGINAL ' + r.stdout[-500:] + r.stderr[-1500:]]
        r = sh('sh %s/demo.sh' % tmp, cwd=repo, timeout=300)
        if r.returncode == 0:
            return b['id'], ['DEMO PASSES WITH BUG']
        out.append('demo ok')
        if run_tests:
            t = open('/opt/vp/test.sh').read().replace('/repo/', repo + '/').replace(
                '=/repo', '=' + repo).replace('cd /repo ', 'cd %s ' % repo)
            t = t.replace('$WORK' + repo, '$WORK/repo')
            g = open('/opt/vp/run_grammars.py').read().replace("'/repo", "'" + repo)
            open(root + '/run_grammars.py', 'w').write(g)
            t = t.replace('/opt/vp/run_grammars.py', root + '/run_grammars.py')
            open(root + '/test.sh', 'w').write(t)
            sh('bash %s/test.sh %s/o.json' % (root, root))
            try:
                base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                miss = sorted(base - set(json.load(open(root + '/o.json'))['passed']))
            except OSError as e:
                miss = [str(e)]
            if miss:
                return b['id'], out + ['TESTS FAIL: %d %s' % (len(miss), miss[:6])]
            out.append('tests ok')
        shutil.rmtree(sd, ignore_errors=True)
        shutil.copytree(tmp, sd)
        if run_check:
            ev = root + '/ev'
            r = sh('python3-vt -m symx.check %s quick' % b['prop'], cwd=VERIF, env=dict(
                os.environ, SYMX_REPO=repo, SYMX_EVIDENCE=ev), timeout=1800)
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            out.append('CAUGHT' if r.returncode == 1 and v else
                       'MISSED (exit %d) %s' % (r.returncode, r.stdout[-600:] + r.stderr[-800:]))
            k = [x for x in r.stdout.splitlines() if x.startswith('  ')][:1]
            out.append(k[0].strip() if k else '')
        return b['id'], out
    except Exception as e:
        return b['id'], out + ['ERROR %r' % e]
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    spec = runpy.run_path(sys.argv[1])['BUGS']
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    todo = [b for b in spec if not ids or b['id'] in ids]
    kw = dict(run_tests='--notest' not in sys.argv, run_check='--nocheck' not in sys.argv)
    with ThreadPoolExecutor(3) as ex:
        for id, out in ex.map(lambda b: plant(b, **kw), todo):
            print(id, '|', ' | '.join(out), flush=True)


if __name__ == '__main__':
    main()
