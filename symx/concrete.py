"""symx.concrete -- the concrete counterpart of core.Ctx: runs a harness on the
unmodified code with the values of a solver model.  No z3 needed."""
from __future__ import annotations


class ConcreteSignal(BaseException):
    pass


class AssumeFailed(ConcreteSignal):
    pass


class Diverged(ConcreteSignal):
    """the real code asks for a value that the symbolic path never declared"""


class CheckFailed(ConcreteSignal):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


class ConcreteCtx:
    symbolic = False

    def __init__(self, assignment, ignore_known=False):
        self.a = assignment
        self.observations = []
        self.tags = set()
        self.nchecks = 0
        self.ignore_known = ignore_known
        self.known_hits = []

    def _get(self, name, kind):
        if name not in self.a:
            raise Diverged('variable %s is not part of the path' % name)
        k, v = self.a[name]
        if k != kind:
            raise Diverged('variable %s: %s vs %s' % (name, k, kind))
        return v

    def int(self, name, lo, hi): return self._get(name, 'int')

    def choice(self, name, options):
        if not isinstance(options, (list, tuple)):
            options = list(options)
        return options[self._get(name, 'choice')]

    def bool(self, name): return bool(self._get(name, 'choice'))

    def str(self, name, maxlen, alphabet, minlen=0):
        return ''.join(map(chr, self._get(name, 'str')))

    def bytes(self, name, maxlen, alphabet, minlen=0):
        return bytes(self._get(name, 'bytes'))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label, detail=None):
        self.nchecks += 1
        if not cond:
            raise CheckFailed(label, _fmt(detail))

    def fail(self, label, detail=None):
        self.check(False, label, detail)

    def observe(self, *values):
        self.observations.append(plain(values))

    def prepare(self, fn, *args): return fn(*args)

    def tag(self, t): self.tags.add(t)

    def known(self, fid, cond=True):
        if self.ignore_known:
            return False
        if cond:
            self.known_hits.append(fid)
            return True
        return False


def _fmt(detail):
    if detail is None:
        return ''
    try:
        return repr(plain(detail() if callable(detail) else detail))
    except Exception as e:
        return 'detail unavailable: %r' % e


def plain(x):
    """JSON-compatible normal form of an observed value"""
    if x is None or isinstance(x, (bool, int)):
        return x if not isinstance(x, bool) else bool(x)
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (bytes, bytearray)):
        return ['bytes'] + list(x)
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return ['dict'] + [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((plain(y) for y in x), key=repr)
    return type(x).__name__
