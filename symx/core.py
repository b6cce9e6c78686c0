"""symx.core -- path exploration and symbolic scalars.

The real code of /repo is executed with symbolic proxies.  Whenever control
flow depends on a symbolic truth value, Ctx.branch() asks z3 which outcomes
are satisfiable together with the path condition, and the exploration visits
every satisfiable outcome (depth first, by re-execution).  At the end of a path
the negation of the property is handed to z3 together with the path condition.
"""
from __future__ import annotations
import time
import z3
from . import expr as X


class EngineSignal(BaseException):
    """Base of all signals that code under test must not swallow."""


class Unsupported(EngineSignal):
    """The encoding does not cover this operation: inconclusive, never 'holds'."""


class Inconclusive(EngineSignal):
    pass


class PathAbort(EngineSignal):
    """Path condition became unsatisfiable (assume) -- drop the path."""


class TickLimit(EngineSignal):
    """Step budget of the path exhausted (possible non-termination)."""


class Violation(EngineSignal):
    def __init__(self, label, assignment, detail=''):
        super().__init__(label)
        self.label, self.assignment, self.detail = label, assignment, detail


CTX = None      # the active context (one per process)


class Decision:
    __slots__ = ('expr', 'taken', 'open', 'payload', 'pushed')

    def __init__(self, expr, taken, open_, payload=None, pushed=True):
        self.expr, self.taken, self.open, self.payload = expr, taken, open_, payload
        self.pushed = pushed


class Ctx:
    """One exploration (= one harness job)."""
    symbolic = True

    def __init__(self, max_paths=200000, tick_limit=400000, query_timeout_ms=30000,
                 deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.decisions = []      # type: list[Decision]
        self.depth = 0           # index of next decision in this run
        self.queries = 0
        self.solver_s = 0.0
        self.max_paths = max_paths
        self.paths = 0
        self.aborted = 0
        self.tick_limit = tick_limit
        self.ticks = 0
        self.deadline = deadline
        self.model = None
        self.functions = set()
        self.checks = 0           # assertions handed to the solver
        self.trivial_checks = 0   # assertions whose negation folded to false
        self.asserted = 0
        self.defaults = {}
        self.reset_run()

    # -- per run ---------------------------------------------------------
    def reset_run(self):
        self.depth = 0
        self.ticks = 0
        self.vars = {}           # name -> (kind, spec, proxy)
        self.order = []
        self.observations = []
        self.path_checks = 0
        self.notes = []
        self.symkeys = 0
        self.known_facts = {}          # facts found on this path (id(expr)->bool)
        self.values = {}         # terms with a known value on this path
        self.tags = set()

    # -- solver ----------------------------------------------------------
    def _check(self, *extra):
        self.queries += 1
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive('solver returned unknown: ' + self.solver.reason_unknown())
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('time budget of the check exhausted')
        return r == z3.sat

    def branch(self, e, payload=None) -> bool:
        """Decide the truth value of the boolean term `e` on the current path."""
        op = e.op
        if op == 'not':
            return not self.branch(e.args[0])
        if op == 'ge0':
            t = e.args[0]
            if t.op == 'lin' and t.args[1][0][1] < 0:
                return not self.branch(X.not_(e), payload)
        elif e is X.TRUE:
            return True
        elif e is X.FALSE:
            return False
        k = self.known_facts.get(e)
        if k is not None:
            return k
        if self.depth < len(self.decisions):
            d = self.decisions[self.depth]
            if d.expr is not e:
                raise Inconclusive('re-execution diverged: the code under test is not '
                                   'deterministic (expected %s, got %s)' % (d.expr, e))
            self.depth += 1
            if self.depth == len(self.decisions):
                self.model = None
            self._learn(d.taken, e)
            return d.taken
        if self.model is None:
            # one query decides at least one side and yields a model
            if not self._check():
                raise PathAbort()
            self._take_model()
        ze = X.z3of(e)
        if self.model.ev(e):
            sat_t, model_t = True, self.model
            sat_f = self._check(z3.Not(ze))
        else:
            sat_f = True
            sat_t = self._check(ze)
            model_t = X.Model(self.solver.model(), self.defaults) if sat_t else None
        taken = sat_t
        self.depth += 1
        if sat_t and sat_f:
            self.decisions.append(Decision(e, True, True, payload))
            self.solver.push()
            self.solver.add(ze)
            self.model = model_t
        else:
            self.decisions.append(Decision(e, taken, False, payload, False))
        self._learn(taken, e)
        return taken

    def _take_model(self):
        self.model = X.Model(self.solver.model(), self.defaults)
        return self.model

    def _learn(self, taken, e):
        self.known_facts[e] = taken
        if taken and e.op == 'eq0':
            t = e.args[0]
            if t.op == 'lin':
                c, ts = t.args
                if len(ts) == 1 and ts[0][1] == 1:
                    self.values[ts[0][0]] = -c
            else:
                self.values[t] = 0

    def next_payload(self, e):
        """Value chosen for term `e` by the decision that is replayed next, or None."""
        if self.depth < len(self.decisions):
            d = self.decisions[self.depth]
            if d.payload is None or d.expr is not X.eq(e, d.payload):
                raise Inconclusive('re-execution diverged at concretisation of %s' % e)
            return d.payload
        return None

    def assume(self, cond):
        if isinstance(cond, SymBool):
            e = cond.e
        elif cond:
            return
        else:
            raise PathAbort()
        # encoded as a one-sided decision
        if self.depth < len(self.decisions):
            d = self.decisions[self.depth]
            if d.expr is not e:
                raise Inconclusive('re-execution diverged at assume')
            self.depth += 1
            if self.depth == len(self.decisions):
                self.model = None
            if d.taken is None:
                raise PathAbort()
            self.known_facts[e] = True
            return
        ze = X.z3of(e)
        if self.model is not None and self.model.ev(e):
            sat = True
        else:
            sat = self._check(ze)
            if sat:
                self._take_model()
        self.decisions.append(Decision(e, True if sat else None, False))
        self.depth += 1
        self.solver.push()
        self.solver.add(ze)
        self.known_facts[e] = True
        if not sat:
            self.model = None
            raise PathAbort()

    def concretize(self, si):
        """Fork over all feasible values of SymInt `si`."""
        e = si.e
        if type(e) is int:
            return e
        k = self.values.get(e)
        if k is not None:
            return k
        c, ts = X._terms(e)
        if len(ts) == 1 and ts[0][0] is not e:
            # concretise the underlying atom
            atom, f = ts[0]
            return c + f * self.concretize(SymInt(atom))
        while True:
            v = self.next_payload(e)
            if v is None:
                if self.model is None:
                    if not self._check():
                        raise PathAbort()
                    self._take_model()
                v = self.model.ev(e)
            if self.branch(X.eq(e, v), payload=v):
                self.values[e] = v
                return v

    # -- variables ---------------------------------------------------------
    def _register(self, name, kind, spec, proxy):
        if name in self.vars:
            raise Unsupported('duplicate variable ' + name)
        self.vars[name] = (kind, spec, proxy)
        self.order.append(name)
        return proxy

    def _declare(self, name, dom):
        """fresh integer variable over the interval set `dom`"""
        v = X.var(name)
        self.defaults[name] = dom[0][0]
        self.assume_once(v, dom)
        return v

    def assume_once(self, v, dom):
        """Domain constraint of a fresh variable (satisfiable by construction)."""
        e = X._mk('in', v, dom)
        if self.depth < len(self.decisions):
            d = self.decisions[self.depth]
            if d.expr is not e:
                raise Inconclusive('re-execution diverged at variable declaration')
            self.depth += 1
            if self.depth == len(self.decisions):
                self.model = None
            return
        self.decisions.append(Decision(e, True, False))
        self.depth += 1
        self.solver.push()
        self.solver.add(X.z3of(e))
        if self.model is not None:
            # the variable is fresh: extend the model by its default value
            self.model.vals[v.args[0]] = self.defaults[v.args[0]]
            if v in self.model.cache:
                self.model = None

    def int(self, name, lo, hi):
        """Symbolic integer lo <= x <= hi."""
        if lo == hi:
            self._register(name, 'int', [lo, hi], lo)
            return lo
        return self._register(name, 'int', [lo, hi],
                              SymInt(self._declare(name, ((lo, hi),)), lo, hi))

    def choice(self, name, options):
        """Symbolic choice among a finite list (index is a solver variable)."""
        if not isinstance(options, (list, tuple)):
            options = list(options)
        n = len(options)
        if n == 1:
            self._register(name, 'choice', [n], 0)
            return options[0]
        p = SymInt(self._declare(name, ((0, n - 1),)), 0, n - 1)
        self._register(name, 'choice', [n], p)
        return options[self.concretize(p)]

    def bool(self, name):
        p = SymInt(self._declare(name, ((0, 1),)), 0, 1)
        self._register(name, 'choice', [2], p)
        return SymBool(X.eq(p.e, 1))

    def str(self, name, maxlen, alphabet, minlen=0):
        """Symbolic string: length minlen..maxlen (forked), characters symbolic over
        `alphabet` (a list of (lo, hi) code point intervals or a str of characters)."""
        from . import strs
        dom = strs.as_domain(alphabet)
        if minlen == maxlen:
            length = minlen
            self._register(name, 'str', [minlen, maxlen], length)
        else:
            ln = SymInt(self._declare(name + '#', ((minlen, maxlen),)), minlen, maxlen)
            self._register(name, 'str', [minlen, maxlen], ln)
            length = self.concretize(ln)
        chars = []
        for i in range(length):
            chars.append(strs.SymChar(self._declare('%s[%d]' % (name, i), dom), dom))
        s = strs.make_str(chars)
        self.vars[name] = ('str', [minlen, maxlen], chars)
        return s

    def bytes(self, name, maxlen, alphabet, minlen=0):
        from . import strs
        s = self.str(name, maxlen, alphabet, minlen)
        kind, spec, chars = self.vars[name]
        self.vars[name] = ('bytes', spec, chars)
        return strs.make_bytes(chars)

    # -- properties --------------------------------------------------------
    def check(self, cond, label, detail=None):
        """Assert a property: z3 must refute (path condition and not cond)."""
        self.asserted += 1
        self.path_checks += 1
        if isinstance(cond, SymBool):
            if cond.e is X.TRUE or self.known_facts.get(cond.e):
                self.trivial_checks += 1
                return
            self.checks += 1
            if self._check(z3.Not(X.z3of(cond.e))):
                m = X.Model(self.solver.model(), self.defaults)
                raise Violation(label, self.assignment(m), _fmt(detail, m))
            return
        cond = bool(cond)
        if not cond:
            self.checks += 1
            if not self._check():
                raise PathAbort()
            m = X.Model(self.solver.model(), self.defaults)
            raise Violation(label, self.assignment(m), _fmt(detail, m))
        self.trivial_checks += 1

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def prepare(self, fn, *args):
        """fn(*args), which depends on no symbolic value and counts with a step budget of its
        own (a hundred times that of the path)."""
        ticks, self.ticks = self.ticks, -99 * self.tick_limit
        r = fn(*args)
        self.ticks = ticks
        return r

    def observe(self, *values):
        """Record values that a concrete replay of the path must reproduce."""
        self.observations.append(values)

    def tag(self, t):
        """Reachability witness: at least one path must carry each expected tag."""
        self.tags.add(t)

    def assignment(self, model):
        out = {}
        for name in self.order:
            kind, spec, p = self.vars[name]
            if kind in ('int', 'choice'):
                out[name] = [kind, p if type(p) is int else model.ev(p.e)]
            else:
                cps = []
                if isinstance(p, list):
                    cps = [c if type(c) is int else model.ev(c.e) for c in p]
                out[name] = [kind, cps]
        return out

    def path_model(self):
        if self.model is None:
            if not self._check():
                return None
            self._take_model()
        return self.model

    # -- exploration -------------------------------------------------------
    def backtrack(self) -> bool:
        while self.decisions:
            d = self.decisions.pop()
            if d.pushed:
                self.solver.pop()
            if d.open:
                nd = Decision(d.expr, False, False, d.payload)
                self.decisions.append(nd)
                self.solver.push()
                self.solver.add(z3.Not(X.z3of(d.expr)))
                self.model = None
                return True
        return False


def _fmt(detail, model):
    if detail is None:
        return ''
    try:
        from .driver import plain_sym
        return repr(plain_sym(detail() if callable(detail) else detail, model))
    except Exception as e:
        return 'detail unavailable: %r' % e


# ------------------------------------------------------------------ scalars

def zint(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return X.ite(x.e, 1, 0)
    return int(x)


class SymBool:
    __slots__ = ('e',)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(X.iff(self.e, o.e))
        if o is True:
            return self
        if o is False:
            return mkbool(X.not_(self.e))
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(X.not_(r.e)) if type(r) is SymBool else not r

    def __and__(self, o):
        if type(o) is SymBool:
            return mkbool(X.and_(self.e, o.e))
        if isinstance(o, bool):
            return self if o else False
        return int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool:
            return mkbool(X.or_(self.e, o.e))
        if isinstance(o, bool):
            return True if o else self
        return int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool:
            return mkbool(X.not_(X.iff(self.e, o.e)))
        return bool(self) ^ o
    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported('~bool')

    def __index__(self):
        return 1 if self else 0
    __int__ = __index__

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mkbool(e):
    """Fold trivial expressions to real bools."""
    if e is X.TRUE:
        return True
    if e is X.FALSE:
        return False
    return SymBool(e)


def s_not(b):
    if type(b) is SymBool:
        return mkbool(X.not_(b.e))
    return not b


def s_and(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(X.and_(*es))


def s_or(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(X.or_(*es))


def mkint(e, lo=None, hi=None):
    if type(e) is int:
        return e
    return SymInt(e, lo, hi)


def _ne(a, b):
    return X.not_(X.eq(a, b))


class SymInt:
    """Mathematical integer (Python int semantics) as a z3 Int term."""
    __slots__ = ('e', 'lo', 'hi')
    __class__ = property(lambda self: int)

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi

    def _bin(self, o, f):
        if type(o) is SymInt:
            return mkint(f(self.e, o.e))
        if isinstance(o, int):
            return mkint(f(self.e, zint(o)))
        return NotImplemented

    def _rbin(self, o, f):
        if isinstance(o, int):
            return mkint(f(zint(o), self.e))
        return NotImplemented

    def __add__(self, o): return self._bin(o, X.add)
    def __radd__(self, o): return self._rbin(o, X.add)
    def __sub__(self, o): return self._bin(o, X.sub)
    def __rsub__(self, o): return self._rbin(o, X.sub)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not isinstance(o, int):
            return o * CTX.concretize(self)
        return self._bin(o, X.mul)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not isinstance(o, int):
            return o * CTX.concretize(self)
        return self._rbin(o, X.mul)

    def _posdiv(self, o):
        if type(o) is SymInt:
            return CTX.concretize(o)
        return int(o)

    def __floordiv__(self, o):
        d = self._posdiv(o)
        if d == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if d < 0:
            return (-self) // (-d)
        return mkint(X.div(self.e, d))

    def __mod__(self, o):
        d = self._posdiv(o)
        if d == 0:
            raise ZeroDivisionError('integer modulo by zero')
        if d < 0:
            return -((-self) % (-d))
        return mkint(X.mod(self.e, d))

    def __divmod__(self, o): return self // o, self % o
    def __rfloordiv__(self, o): return o // CTX.concretize(self)
    def __rmod__(self, o): return o % CTX.concretize(self)
    def __truediv__(self, o): return CTX.concretize(self) / o
    def __rtruediv__(self, o): return o / CTX.concretize(self)
    def __pow__(self, o, m=None): return pow(CTX.concretize(self), o)
    def __lshift__(self, o): return self * (1 << int(o))
    def __rshift__(self, o): return self // (1 << int(o))
    def __and__(self, o): return CTX.concretize(self) & o
    __rand__ = __and__
    def __or__(self, o): return CTX.concretize(self) | o
    __ror__ = __or__
    def __xor__(self, o): return CTX.concretize(self) ^ o
    __rxor__ = __xor__
    def __neg__(self): return mkint(X.neg(self.e))
    def __pos__(self): return self
    def __abs__(self): return mkint(X.ite(X.ge(self.e, 0), self.e, X.neg(self.e)))
    def __invert__(self): return mkint(X.sub(X.neg(self.e), 1))
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def _cmp(self, o, f):
        if type(o) is SymInt:
            return mkbool(f(self.e, o.e))
        if isinstance(o, int):
            return mkbool(f(self.e, zint(o)))
        if isinstance(o, float):
            v = CTX.concretize(self) if abs(o) != float('inf') else 0
            op = {X.lt: '__lt__', X.le: '__le__', X.gt: '__gt__', X.ge: '__ge__',
                  X.eq: '__eq__', _ne: '__ne__'}[f]
            return getattr(float(v), op)(o)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, X.lt)
    def __le__(self, o): return self._cmp(o, X.le)
    def __gt__(self, o): return self._cmp(o, X.gt)
    def __ge__(self, o): return self._cmp(o, X.ge)
    def __eq__(self, o): return self._cmp(o, X.eq)
    def __ne__(self, o): return self._cmp(o, _ne)
    def __bool__(self): return CTX.branch(_ne(self.e, 0))
    def __index__(self): return CTX.concretize(self)
    def __int__(self): return CTX.concretize(self)
    def __float__(self): return float(CTX.concretize(self))
    def __hash__(self): return hash(CTX.concretize(self))
    def __str__(self): return str(CTX.concretize(self))
    def __repr__(self): return 'SymInt(%s)' % self.e
    def __format__(self, spec): return format(CTX.concretize(self), spec)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def bit_length(self): return CTX.concretize(self).bit_length()
    def to_bytes(self, *a, **k): return CTX.concretize(self).to_bytes(*a, **k)
    def conjugate(self): return self
    real = property(lambda self: self)
    imag = property(lambda self: 0)


def _ctx_known(self, fid, cond=True):
    """True iff the input lies in the region of the listed known finding `fid`."""
    if fid not in self.known_ids:
        return False
    r = bool(cond)
    if r:
        self.known_hits[fid] = self.known_hits.get(fid, 0) + 1
    return r


Ctx.known = _ctx_known
