"""Concrete replay of solver models on the unmodified code.

  replay.py --serve PROP          JSON requests on stdin (used by the checks)
  replay.py FILE                  replay a stored counterexample; exit 1 if it fails
"""
import importlib.util
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from symx.concrete import ConcreteCtx, CheckFailed, AssumeFailed, Diverged   # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def load(prop):
    path = os.path.join(VERIF, 'harness', prop + '.py')
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    spec = importlib.util.spec_from_file_location('harness_' + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    if hasattr(m, 'setup'):
        m.setup()
    return m


def snapshot():
    from DHParser import configuration as c
    return {k: dict(v) if isinstance(v, dict) else v
            for k, v in c.access_thread_locals().__dict__.items()}


def restore(snap):
    from DHParser import configuration as c
    tl = c.access_thread_locals()
    tl.__dict__.clear()
    for k, v in snap.items():
        tl.__dict__[k] = dict(v) if isinstance(v, dict) else v


def run_one(mod, req, snap):
    cx = ConcreteCtx(req['assignment'], req.get('ignore_known', False))
    restore(snap)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(req.get('timeout', 60)))
    try:
        getattr(mod, req['fn'])(cx, **req['params'])
        out = {'status': 'ok', 'observations': cx.observations, 'known': cx.known_hits,
               'tags': sorted(cx.tags)}
    except CheckFailed as e:
        out = {'status': 'violation', 'label': e.label, 'detail': e.detail}
    except AssumeFailed:
        out = {'status': 'assume'}
    except Diverged as e:
        out = {'status': 'diverged', 'detail': str(e)}
    except Timeout:
        out = {'status': 'timeout', 'label': 'non-termination'}
    except Exception as e:
        out = {'status': 'exception', 'label': 'exception:' + type(e).__name__,
               'detail': traceback.format_exc(limit=-6)}
    finally:
        signal.alarm(0)
    return out


def main():
    repo = os.environ.get('SYMX_REPO', '/repo')
    if repo not in sys.path:
        sys.path.insert(0, repo)
    sys.setrecursionlimit(20000)
    if sys.argv[1] == '--serve':
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        mod = load(sys.argv[2])
        snap = snapshot()
        for line in sys.stdin:
            out.write(json.dumps(run_one(mod, json.loads(line), snap)) + '\n')
            out.flush()
        return 0
    if sys.argv[1] == '--setup':
        try:
            load(sys.argv[2]).jobs('quick')
        except Exception:
            print(traceback.format_exc(limit=-8))
            return 3
        return 0
    with open(sys.argv[1]) as f:
        req = json.load(f)
    mod = load(req['property'])
    r = run_one(mod, req, snapshot())
    print(json.dumps(r, indent=1))
    return 1 if r['status'] != 'ok' else 0


if __name__ == '__main__':
    sys.exit(main())
