"""symx.expr -- hash-consed integer/boolean terms; translated to z3 on demand.

Integer terms are kept in linear normal form; comparisons are normalised against 0.
The translation to z3 (`z3of`) is direct and cached per node."""
from __future__ import annotations
import bisect
import z3

_table = {}


class Node:
    """op:
    int :  lin(const, ((atom, coeff), ...)) | var(name) | div(t, k) | mod(t, k) |
           mul(a, b) | ite(cond, a, b)      (div/mod: floor division by positive constant)
    bool:  ge0(lin) | eq0(lin) | in(term, domain) | not(b) | and(..) | or(..)
    """
    __slots__ = ('op', 'args', 'z', '__weakref__')

    def __init__(self, op, args):
        self.op, self.args, self.z = op, args, None

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(op, *args):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = _table[key] = Node(op, args)
    return n


TRUE = _mk('true')
FALSE = _mk('false')


def show(n):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'var':
        return n.args[0]
    if n.op == 'lin':
        c, ts = n.args
        s = ' + '.join(('%s' if k == 1 else str(k) + '*%s') % show(a) for a, k in ts)
        return s + (' + %d' % c if c else '')
    return '%s(%s)' % (n.op, ', '.join(show(a) for a in n.args))


# ----------------------------------------------------------------- integers
# an integer term is a python int or a Node (lin / atom)
def var(name):
    return _mk('var', name)


_order = {}


def _key(a):
    k = _order.get(a)
    if k is None:
        k = _order[a] = len(_order)
    return k


def _terms(a):
    if type(a) is int:
        return a, ()
    if a.op == 'lin':
        return a.args
    return 0, ((a, 1),)


def _lin(c, d):
    ts = [(a, k) for a, k in d.items() if k]
    if not ts:
        return c
    if len(ts) == 1 and c == 0 and ts[0][1] == 1:
        return ts[0][0]
    ts.sort(key=lambda t: _key(t[0]))
    return _mk('lin', c, tuple(ts))


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    c1, t1 = _terms(a)
    c2, t2 = _terms(b)
    d = dict(t1)
    for x, k in t2:
        d[x] = d.get(x, 0) + k
    return _lin(c1 + c2, d)


def scale(a, n):
    if type(a) is int:
        return a * n
    c, t = _terms(a)
    return _lin(c * n, {x: k * n for x, k in t})


def neg(a): return scale(a, -1)


def sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    return add(a, scale(b, -1))


def mul(a, b):
    if type(a) is int:
        return scale(b, a)
    if type(b) is int:
        return scale(a, b)
    return _mk('mul', a, b)


def div(a, k):
    """floor division by a positive constant"""
    if type(a) is int:
        return a // k
    if k == 1:
        return a
    return _mk('div', a, k)


def mod(a, k):
    if type(a) is int:
        return a % k
    if k == 1:
        return 0
    return _mk('mod', a, k)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    return _mk('ite', c, a, b)


# ----------------------------------------------------------------- booleans
def _ge0(t):
    """t >= 0"""
    if type(t) is int:
        return TRUE if t >= 0 else FALSE
    if t.op == 'lin' and len(t.args[1]) == 1:
        c, ((a, k),) = t.args
        if k not in (1, -1):
            # k*a + c >= 0
            if k > 0:
                return _ge0(add(a, c // k))         # a >= ceil(-c/k) = -(c//k)
            return _ge0(sub(c // -k, a))
    return _mk('ge0', t)


def ge(a, b): return _ge0(sub(a, b))
def le(a, b): return _ge0(sub(b, a))
def gt(a, b): return _ge0(sub(sub(a, b), 1))
def lt(a, b): return _ge0(sub(sub(b, a), 1))


def eq(a, b):
    if a is b:
        return TRUE
    t = sub(a, b)
    if type(t) is int:
        return TRUE if t == 0 else FALSE
    if t.op != 'lin':
        return _mk('eq0', t)
    c, ts = t.args
    if ts[0][1] < 0:
        t = scale(t, -1)
        if t.op != 'lin':
            return _mk('eq0', t)
        c, ts = t.args
    if len(ts) == 1 and ts[0][1] != 1:
        k = ts[0][1]
        if c % k:
            return FALSE
        return eq(ts[0][0], -c // k)
    return _mk('eq0', t)


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'ge0':
        # t >= 0  ->  -t - 1 >= 0
        return _ge0(sub(scale(b.args[0], -1), 1))
    return _mk('not', b)


def and_(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE or b in out:
            continue
        out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', *out)


def or_(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE or b in out:
            continue
        out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', *out)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return _mk('iff', a, b)


def in_(t, dom):
    """t in interval set dom (tuple of (lo, hi))"""
    if not dom:
        return FALSE
    if type(t) is int:
        i = bisect.bisect_right(dom, (t, float('inf'))) - 1
        return TRUE if i >= 0 and dom[i][0] <= t <= dom[i][1] else FALSE
    if len(dom) == 1:
        lo, hi = dom[0]
        if lo == hi:
            return eq(t, lo)
    return _mk('in', t, dom)


# ----------------------------------------------------------------- to z3
def z3of(n):
    if type(n) is int:
        return z3.IntVal(n)
    z = n.z
    if z is None:
        z = n.z = _z3(n)
    return z


def _z3(n):
    op, a = n.op, n.args
    if op == 'var':
        return z3.Int(a[0])
    if op == 'lin':
        c, ts = a
        parts = [z3of(x) if k == 1 else k * z3of(x) for x, k in ts]
        if c:
            parts.append(z3.IntVal(c))
        return z3.Sum(*parts) if len(parts) > 1 else parts[0]
    if op == 'ge0':
        t = a[0]
        if type(t) is not int and t.op == 'lin' and len(t.args[1]) == 1:
            c, ((x, k),) = t.args
            if k == 1:
                return z3of(x) >= -c
            if k == -1:
                return z3of(x) <= c
        return z3of(t) >= 0
    if op == 'eq0':
        t = a[0]
        if t.op == 'lin':
            c, ts = t.args
            if len(ts) == 1:
                return z3of(ts[0][0]) == -c
            if len(ts) == 2 and c == 0 and ts[0][1] == 1 and ts[1][1] == -1:
                return z3of(ts[0][0]) == z3of(ts[1][0])
        return z3of(t) == 0
    if op == 'in':
        t = z3of(a[0])
        es = []
        for lo, hi in a[1]:
            es.append(t == lo if lo == hi else z3.And(t >= lo, t <= hi))
        return es[0] if len(es) == 1 else z3.Or(*es)
    if op == 'not':
        return z3.Not(z3of(a[0]))
    if op == 'and':
        return z3.And(*[z3of(x) for x in a])
    if op == 'or':
        return z3.Or(*[z3of(x) for x in a])
    if op == 'iff':
        return z3of(a[0]) == z3of(a[1])
    if op == 'div':
        return z3of(a[0]) / z3.IntVal(a[1])
    if op == 'mod':
        return z3of(a[0]) % z3.IntVal(a[1])
    if op == 'mul':
        return z3of(a[0]) * z3of(a[1])
    if op == 'ite':
        return z3.If(z3of(a[0]), z3of(a[1]), z3of(a[2]))
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    raise AssertionError(op)


# ----------------------------------------------------------------- evaluation
class Model:
    """a solver model with python-side evaluation (variables absent from the z3 model
    are unconstrained by the path condition; they take their declared default)"""

    def __init__(self, zmodel, defaults):
        self.vals = {}
        for d in zmodel.decls():
            v = zmodel[d]
            if z3.is_int_value(v):
                self.vals[d.name()] = v.as_long()
        self.defaults = defaults
        self.cache = {}

    def ev(self, n):
        if type(n) is int:
            return n
        c = self.cache.get(n)
        if c is None:
            c = self.cache[n] = self._ev(n)
        return c

    def _ev(self, n):
        op, a = n.op, n.args
        ev = self.ev
        if op == 'var':
            v = self.vals.get(a[0])
            if v is None:
                v = self.defaults.get(a[0], 0)
            return v
        if op == 'lin':
            s = a[0]
            for x, k in a[1]:
                s += k * ev(x)
            return s
        if op == 'ge0':
            return ev(a[0]) >= 0
        if op == 'eq0':
            return ev(a[0]) == 0
        if op == 'in':
            v = ev(a[0])
            dom = a[1]
            i = bisect.bisect_right(dom, (v, float('inf'))) - 1
            return i >= 0 and dom[i][0] <= v <= dom[i][1]
        if op == 'not':
            return not ev(a[0])
        if op == 'and':
            return all(ev(x) for x in a)
        if op == 'or':
            return any(ev(x) for x in a)
        if op == 'iff':
            return ev(a[0]) == ev(a[1])
        if op == 'div':
            return ev(a[0]) // a[1]
        if op == 'mod':
            return ev(a[0]) % a[1]
        if op == 'mul':
            return ev(a[0]) * ev(a[1])
        if op == 'ite':
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == 'true':
            return True
        return False
