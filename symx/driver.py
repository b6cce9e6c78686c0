"""symx.driver -- explores one harness job symbolically, replays models concretely."""
from __future__ import annotations
import json
import os
import random
import select
import subprocess
import sys
import time
import traceback
from . import core
from .core import SymBool, SymInt
from .strs import SymStr, SymBytes, SymChar

VENV = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Job:
    def __init__(self, name, fn, params=None, max_paths=20000, tags=(), replays=40, ticks=400000,
                 bounds='', weight=1):
        self.name, self.fn, self.params = name, fn, params or {}
        self.max_paths, self.tags, self.replays = max_paths, tuple(tags), replays
        self.ticks, self.bounds, self.weight = ticks, bounds, weight


def plain_sym(x, model):
    t = type(x)
    if t is SymStr:
        return ''.join(chr(_ev(c, model)) for c in x.c)
    if t is SymBytes:
        return ['bytes'] + [_ev(c, model) for c in x.c]
    if t is SymInt:
        return model.ev(x.e)
    if t is SymBool:
        return bool(model.ev(x.e))
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (bytes, bytearray)):
        return ['bytes'] + list(x)
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return [plain_sym(y, model) for y in x]
    if isinstance(x, dict):
        return ['dict'] + [[plain_sym(k, model), plain_sym(v, model)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((plain_sym(y, model) for y in x), key=repr)
    return t.__name__


def _ev(c, model):
    return c if isinstance(c, int) and type(c) is not SymInt else \
        model.ev(c.e)


class Replayer:
    """long-lived process running the unmodified code under the build's interpreter"""

    def __init__(self, prop, repo):
        self.prop, self.repo, self.p = prop, repo, None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=self.repo,
                   PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
        self.p = subprocess.Popen([VENV, os.path.join(VERIF, 'symx', 'replay.py'), '--serve',
                                   self.prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=VERIF)

    def run(self, job, assignment, timeout=60, ignore_known=False):
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = json.dumps({'fn': job.fn, 'params': job.params, 'assignment': assignment,
                          'timeout': timeout, 'ignore_known': ignore_known})
        try:
            self.p.stdin.write(req.encode() + b'\n')
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout + 30)
            if not r:
                self.p.kill()
                self.p = None
                return {'status': 'timeout'}
            line = self.p.stdout.readline()
            if not line:
                self.p = None
                return {'status': 'crash'}
            return json.loads(line)
        except BrokenPipeError:
            self.p = None
            return {'status': 'crash'}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


def reset_state(snap):
    """restore DHParser's thread-local state (configuration, singletons) between paths"""
    conf = sys.modules.get('DHParser.configuration')
    if conf is None:
        return None
    tl = conf.access_thread_locals()
    if snap is None:
        d = {}
        for k, v in tl.__dict__.items():
            d[k] = dict(v) if isinstance(v, dict) else v
        return d
    tl.__dict__.clear()
    for k, v in snap.items():
        tl.__dict__[k] = dict(v) if isinstance(v, dict) else v
    return snap


def explore(job, fn, replayer, deadline, seed=1, known=None):
    """returns a result dictionary (plain data)"""
    sys.setrecursionlimit(20000)
    ctx = core.Ctx(max_paths=job.max_paths, tick_limit=job.ticks, deadline=deadline)
    t0 = time.time()
    res = {'job': job.name, 'paths': 0, 'aborted': 0, 'violations': [], 'errors': [],
           'inconclusive': [], 'exhaustive': True, 'replayed': 0, 'tags': set(), 'samples': [],
           'known': {}, 'decisions': 0}
    rnd = random.Random(seed)
    snap = reset_state(None)
    core.CTX = ctx
    stride_next = 0
    seen_obs = 0
    try:
        while True:
            ctx.reset_run()
            ctx.known_ids = known or set()
            ctx.known_hits = res['known']
            viol = None
            completed = False
            exc = None
            try:
                core.CTX = None
                reset_state(snap)
                core.CTX = ctx
                fn(ctx, **job.params)
                completed = True
            except core.PathAbort:
                ctx.aborted += 1
            except core.Violation as v:
                viol = (v.label, v.assignment, v.detail, 'check')
            except core.TickLimit as e:
                core.CTX = None
                m = ctx.path_model()
                viol = ('non-termination', ctx.assignment(m), str(e), 'ticks')
            except core.Unsupported as e:
                res['inconclusive'].append('unsupported: %s' % e)
                exc = traceback.format_exc(limit=-6)
                completed = 'unsupported'
            except RecursionError as e:
                m = ctx.path_model()
                viol = ('exception:RecursionError', ctx.assignment(m), '', 'exc')
            except Exception as e:
                tb = traceback.format_exc(limit=-8)
                m = ctx.path_model()
                if m is not None:
                    msg = ''
                    try:
                        msg = str(e)
                    except BaseException:
                        msg = '<symbolic message>'
                    viol = ('exception:' + type(e).__name__, ctx.assignment(m), msg + '\n' + tb,
                            'exc')
            core.CTX = None
            res['decisions'] += len(ctx.decisions)
            if completed:
                ctx.paths += 1
                res['tags'] |= ctx.tags
                # concrete validation of (a sample of) the paths
                do = ctx.paths <= job.replays or completed == 'unsupported' or \
                    ctx.paths >= stride_next
                if do:
                    stride_next = ctx.paths + max(1, ctx.paths // 8)
                    m = ctx.path_model()
                    if m is not None:
                        asg = ctx.assignment(m)
                        r = replayer.run(job, asg)
                        res['replayed'] += 1
                        if len(res['samples']) < 3:
                            res['samples'].append({'job': job.name, 'input': show(asg),
                                                   'outcome': r.get('status')})
                        if r['status'] in ('violation', 'exception'):
                            viol = (r.get('label'), asg, r.get('detail', ''), 'replay')
                            res['violations'].append(dict(
                                label=viol[0], assignment=asg, detail=viol[2], confirmed=True,
                                how='concrete replay of a path model', job=job.name, fn=job.fn,
                                params=job.params))
                            return finish(res, ctx, t0)
                        elif r['status'] != 'ok':
                            res['errors'].append('replay status %s for %s %s' % (
                                r.get('status'), show(asg), r.get('detail', '')))
                        elif completed is True:
                            obs = [plain_sym(v, m) for v in ctx.observations]
                            if json.loads(json.dumps(obs)) != r['observations']:
                                res['errors'].append(
                                    'encoding mismatch on %s: symbolic %s, real %s' % (
                                        show(asg), obs, r['observations']))
                if completed == 'unsupported':
                    res['unsupported_tb'] = exc
                    if len(res['inconclusive']) > 2000:
                        res['exhaustive'] = False
                        break
            if viol is not None:
                label, asg, detail, how = viol
                r = replayer.run(job, asg)
                ok = r['status'] == 'violation' and r['label'] == label or \
                    r['status'] == 'exception' or \
                    r['status'] == 'violation' or \
                    r['status'] == 'timeout' and how == 'ticks'
                rec = dict(label=label, assignment=asg, detail=detail, confirmed=bool(ok),
                           how=how, job=job.name, fn=job.fn, params=job.params,
                           replay=r)
                if ok:
                    res['violations'].append(rec)
                    return finish(res, ctx, t0)
                res['errors'].append('counterexample does not reproduce: %s %s %s -> %s' % (
                    label, show(asg), detail, r))
            if len(res['errors']) > 3:
                break
            if not ctx.backtrack():
                break
            if ctx.paths + ctx.aborted >= job.max_paths:
                res['exhaustive'] = False
                break
            if deadline and time.time() > deadline:
                res['exhaustive'] = False
                res['inconclusive'].append('time budget exhausted')
                break
    except core.Inconclusive as e:
        res['exhaustive'] = False
        msg = str(e)
        if 'diverged' in msg:
            res['errors'].append(msg + '\n' + traceback.format_exc(limit=-8))
        else:
            res['inconclusive'].append(msg)
    finally:
        core.CTX = None
    return finish(res, ctx, t0)


def finish(res, ctx, t0):
    res.update(paths=ctx.paths, aborted=ctx.aborted, queries=ctx.queries,
               solver_s=ctx.solver_s, checks=ctx.checks, trivial=ctx.trivial_checks,
               asserted=ctx.asserted, functions=sorted(ctx.functions), wall=time.time() - t0)
    res['tags'] = sorted(res['tags'])
    res['known'] = {k: v for k, v in res['known'].items()}
    return res


def show(asg):
    out = {}
    for k, (kind, v) in asg.items():
        if kind == 'str':
            out[k] = ''.join(map(chr, v))
        elif kind == 'bytes':
            out[k] = repr(bytes(v))
        else:
            out[k] = v
    return out
