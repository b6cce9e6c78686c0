"""symx.strs -- symbolic strings and byte strings of concrete length with
symbolic elements, implementing the str/bytes API of CPython."""
from __future__ import annotations
import bisect
import functools
import sys
import unicodedata
from . import core
from . import expr as X
from .core import SymBool, SymInt, Unsupported, mkbool, s_and, s_or, s_not

MAXCP = 0x10FFFF


# ---------------------------------------------------------------- domains
def as_domain(alphabet):
    if isinstance(alphabet, str):
        return norm([(ord(c), ord(c)) for c in alphabet])
    if isinstance(alphabet, bytes):
        return norm([(c, c) for c in alphabet])
    return norm([tuple(x) for x in alphabet])


def norm(iv):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(a):
    out, p = [], 0
    for lo, hi in a:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def in_dom(cp, dom):
    i = bisect.bisect_right(dom, (cp, MAXCP + 1)) - 1
    return i >= 0 and dom[i][0] <= cp <= dom[i][1]


def size(dom):
    return sum(hi - lo + 1 for lo, hi in dom)


dom_expr = X.in_


ANYCHAR = ((0, 0xD7FF), (0xE000, MAXCP))      # all of Unicode without surrogates
ASCII = ((0, 127),)
PRINT = ((32, 126),)


def points(dom):
    for lo, hi in dom:
        yield from range(lo, hi + 1)


_class_cache = {}


def class_of(name, pred, dom):
    """The sub-domain of `dom` on whose characters `pred` holds (tabulated from the
    real interpreter, so that the tables are those the code under test uses)."""
    key = (name, dom)
    r = _class_cache.get(key)
    if r is None:
        if sum(h - l + 1 for l, h in dom) > 5000:
            full = _class_cache.get((name, None))
            if full is None:
                full = _class_cache[(name, None)] = norm(
                    [(cp, cp) for cp in range(MAXCP + 1) if pred(chr(cp))])
            r = inter(full, dom)
        else:
            r = norm([(cp, cp) for cp in points(dom) if pred(chr(cp))])
        _class_cache[key] = r
    return r


class SymChar:
    """One symbolic element: z3 Int term plus a static over-approximation of its
    values (`dom`)."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom):
        self.e, self.dom = e, dom

    def isin(self, cls):
        """SymBool/bool: value lies in interval set `cls`"""
        sub = inter(self.dom, cls)
        if not sub:
            return False
        if sub == self.dom:
            return True
        other = inter(self.dom, compl(cls))
        if len(other) < len(sub):
            return mkbool(X.not_(dom_expr(self.e, other)))
        return mkbool(dom_expr(self.e, sub))


def el_eq(a, b):
    ta, tb = type(a) is SymChar, type(b) is SymChar
    if not ta and not tb:
        return a == b
    if ta and tb:
        if a is b:
            return True
        if a.e is b.e:
            return True
        if not inter(a.dom, b.dom):
            return False
        return mkbool(X.eq(a.e, b.e))
    if tb:
        a, b = b, a
    if not in_dom(b, a.dom):
        return False
    if a.dom == ((b, b),):
        return True
    return mkbool(X.eq(a.e, b))


def el_in(a, cls):
    if type(a) is SymChar:
        return a.isin(cls)
    return in_dom(a, cls)


def el_int(a):
    return core.mkint(a.e) if type(a) is SymChar else a


def el_z3(a):
    return a.e if type(a) is SymChar else a


def seq_eq(xs, ys):
    """SymBool/bool for element-wise equality."""
    if len(xs) != len(ys):
        return False
    es = []
    for a, b in zip(xs, ys):
        r = el_eq(a, b)
        if r is False:
            return False
        if r is not True:
            es.append(r)
    return s_and(*es)


def seq_lt(xs, ys, orequal):
    n = min(len(xs), len(ys))
    tail = len(xs) <= len(ys) if orequal else len(xs) < len(ys)
    r = X.TRUE if tail else X.FALSE
    for a, b in reversed(list(zip(xs[:n], ys[:n]))):
        ea, eb = el_z3(a), el_z3(b)
        r = X.or_(X.lt(ea, eb), X.and_(X.eq(ea, eb), r))
    return mkbool(r)


SYM_STR_TYPES = ()


def is_sym(x):
    return type(x) in (SymStr, SymBytes)


class _SymSeq:
    __slots__ = ('c', '_hashable')

    def __init__(self, chars):
        self.c = chars
        self._hashable = False

    # to be provided by subclasses: _mk, _els, _real
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __hash__(self):
        if self._hashable:
            return id(self) >> 4
        raise Unsupported('hash of a symbolic string')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _coerce(self, o):
        e = self._els(o)
        if e is None:
            raise TypeError('must be %s, not %s' % (self._real.__name__, type(o).__name__))
        return e

    def __eq__(self, o):
        if o is self:
            return True
        e = self._els(o)
        if e is None:
            return NotImplemented
        return seq_eq(self.c, e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __lt__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else seq_lt(self.c, e, False)

    def __le__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else seq_lt(self.c, e, True)

    def __gt__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else seq_lt(e, self.c, False)

    def __ge__(self, o):
        e = self._els(o)
        return NotImplemented if e is None else seq_lt(e, self.c, True)

    def __add__(self, o):
        e = self._els(o)
        if e is None:
            return NotImplemented
        return self._mk(self.c + e)

    def __radd__(self, o):
        e = self._els(o)
        if e is None:
            return NotImplemented
        return self._mk(e + self.c)

    def __mul__(self, n):
        return self._mk(self.c * int(n))
    __rmul__ = __mul__

    def _idx(self, start, end):
        n = len(self.c)
        start = 0 if start is None else start
        end = n if end is None else end
        if type(start) is SymInt:
            start = core.CTX.concretize(start)
        if type(end) is SymInt:
            end = core.CTX.concretize(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def _sub(self, s):
        if isinstance(s, int) and self._real is bytes:
            return [el for el in [s]]
        return self._coerce(s)

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        s, e = self._idx(start, end)
        m = len(sub)
        for i in range(s, e - m + 1):
            if seq_eq(self.c[i:i + m], sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        s, e = self._idx(start, end)
        m = len(sub)
        for i in range(e - m, s - 1, -1):
            if seq_eq(self.c[i:i + m], sub):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = self._sub(sub)
        s, e = self._idx(start, end)
        m = len(sub)
        if m == 0:
            return max(0, e - s + 1) if s <= len(self.c) else 0
        n, i = 0, s
        while i + m <= e:
            if seq_eq(self.c[i:i + m], sub):
                n += 1
                i += m
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return s_or(*[self.startswith(p, start, end) for p in prefix])
        p = self._coerce(prefix)
        s, e = self._idx(start, end)
        if s > len(self.c) or e - s < len(p):
            return False
        return seq_eq(self.c[s:s + len(p)], p)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return s_or(*[self.endswith(p, start, end) for p in suffix])
        p = self._coerce(suffix)
        s, e = self._idx(start, end)
        if s > len(self.c) or e - s < len(p):
            return False
        return seq_eq(self.c[e - len(p):e], p) if p else True

    def __contains__(self, sub):
        return bool(self.find(sub) >= 0)

    def contains(self, sub):
        """Symbolic containment without forking over the position."""
        if isinstance(sub, int) and self._real is bytes:
            return s_or(*[el_eq(c, sub) for c in self.c])
        p = self._coerce(sub)
        m = len(p)
        return s_or(*[seq_eq(self.c[i:i + m], p) for i in range(0, len(self.c) - m + 1)])

    def replace(self, old, new, count=-1):
        old, new = self._coerce(old), self._coerce(new)
        count = int(count)
        out, i, m, n = [], 0, len(old), len(self.c)
        if count < 0:
            count = n + 2
        if m == 0:
            if count == 0:
                return self
            for i, c in enumerate(self.c):
                if count > 0:
                    out += new
                    count -= 1
                out.append(c)
            if count > 0:
                out += new
            return self._mk(out)
        while i < n:
            if count > 0 and i + m <= n and seq_eq(self.c[i:i + m], old):
                out += new
                i += m
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return self._mk(out)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self._mk(self.c), self._mk([]), self._mk([])
        m = len(self._coerce(sep))
        return self._mk(self.c[:i]), self._mk(self.c[i:i + m]), self._mk(self.c[i + m:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._mk([]), self._mk([]), self._mk(self.c)
        m = len(self._coerce(sep))
        return self._mk(self.c[:i]), self._mk(self.c[i:i + m]), self._mk(self.c[i + m:])

    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            maxsplit = len(self.c) + 1
        out = []
        n = len(self.c)
        if sep is None:
            ws = [None] * n
            i = 0
            while True:
                while i < n and el_in(self.c[i], self._ws()):
                    i += 1
                if i >= n:
                    break
                if len(out) >= maxsplit:
                    k = n
                    while k > i and el_in(self.c[k - 1], self._ws()):
                        k -= 1
                    # CPython keeps trailing whitespace stripped in the rest
                    out.append(self._mk(self.c[i:k]))
                    break
                k = i
                while k < n and not el_in(self.c[k], self._ws()):
                    k += 1
                out.append(self._mk(self.c[i:k]))
                i = k
            return out
        p = self._coerce(sep)
        if not p:
            raise ValueError('empty separator')
        m = len(p)
        a = i = 0
        while i + m <= n and len(out) < maxsplit:
            if seq_eq(self.c[i:i + m], p):
                out.append(self._mk(self.c[a:i]))
                i += m
                a = i
            else:
                i += 1
        out.append(self._mk(self.c[a:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit(None, n)')
        p = self._coerce(sep)
        m = len(p)
        out = []
        b = len(self.c)
        i = b
        while i - m >= 0 and len(out) < maxsplit:
            if seq_eq(self.c[i - m:i], p):
                out.append(self._mk(self.c[i:b]))
                i -= m
                b = i
            else:
                i -= 1
        out.append(self._mk(self.c[:b]))
        out.reverse()
        return out

    def _stripset(self, chars):
        if chars is None:
            return None
        return self._coerce(chars)

    def _instrip(self, el, cs):
        if cs is None:
            return bool(el_in(el, self._ws()))
        return bool(s_or(*[el_eq(el, c) for c in cs]))

    def lstrip(self, chars=None):
        cs = self._stripset(chars)
        i = 0
        while i < len(self.c) and self._instrip(self.c[i], cs):
            i += 1
        return self._mk(self.c[i:])

    def rstrip(self, chars=None):
        cs = self._stripset(chars)
        k = len(self.c)
        while k > 0 and self._instrip(self.c[k - 1], cs):
            k -= 1
        return self._mk(self.c[:k])

    def strip(self, chars=None):
        cs = self._stripset(chars)
        i, k = 0, len(self.c)
        while i < k and self._instrip(self.c[i], cs):
            i += 1
        while k > i and self._instrip(self.c[k - 1], cs):
            k -= 1
        return self._mk(self.c[i:k])

    def removeprefix(self, p):
        return self._mk(self.c[len(p):]) if self.startswith(p) else self._mk(self.c)

    def removesuffix(self, p):
        return self._mk(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) \
            else self._mk(self.c)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.c
            first = False
            e = self._els(x)
            if e is None:
                raise TypeError('sequence item: expected str instance, %s found'
                                % type(x).__name__)
            out += e
        return self._mk(out)

    def ljust(self, w, f=None):
        pad = int(w) - len(self.c)
        return self._mk(self.c + (self._els(f) if f else [32]) * max(0, pad))

    def rjust(self, w, f=None):
        pad = int(w) - len(self.c)
        return self._mk((self._els(f) if f else [32]) * max(0, pad) + self.c)

    def _final_sigma(self, k):
        """the context dependent rule for the lower case of a capital sigma"""
        def ctx(c, nm, pred):
            return c.isin(class_of(nm, pred, c.dom)) if type(c) is SymChar else pred(chr(c))

        def cased(x):
            return (x + 'Σ').lower()[-1] == 'ς'

        def skip(x):
            return ('a' + x + 'Σ').lower()[-1] == 'ς' and not cased(x)
        for step, want in ((-1, True), (1, False)):
            i = k + step
            while 0 <= i < len(self.c) and ctx(self.c[i], 'caseignorable', skip):
                i += step
            found = bool(0 <= i < len(self.c) and ctx(self.c[i], 'cased', cased))
            if found != want:
                return 0x3c3
        return 0x3c2

    def _map(self, name, fn):
        out = []
        for k, c in enumerate(self.c):
            if name == 'lower' and len(self.c) > 1:
                if c == 0x3a3 if type(c) is not SymChar else c.isin(((0x3a3, 0x3a3),)):
                    out.append(self._final_sigma(k))
                    continue
                if type(c) is SymChar:
                    c = SymChar(c.e, inter(c.dom, ((0, 0x3a2), (0x3a4, MAXCP))))
            if type(c) is not SymChar:
                out += [ord(x) for x in fn(chr(c))]
                continue
            # group the domain by offset
            groups, multi = _offset_groups(name, fn, c.dom)
            if multi:
                if c.isin(multi):
                    cp = int(SymInt(c.e, c.dom[0][0], c.dom[-1][1]))
                    out += [ord(x) for x in fn(chr(cp))]
                    continue
                c = SymChar(c.e, inter(c.dom, compl(multi)))
            if len(groups) > 8:
                moved = compl(groups.get(0, ()))
                if not c.isin(moved):
                    out.append(SymChar(c.e, groups.get(0, ())))
                    continue
                c = SymChar(c.e, inter(c.dom, moved))
                groups = {k: v for k, v in groups.items() if k}
            if len(groups) == 1:
                (off, dom), = groups.items()
                out.append(c if off == 0 else
                           SymChar(X.add(c.e, off), norm([(l + off, h + off) for l, h in dom])))
                continue
            e = c.e
            newdom = []
            for off, dom in groups.items():
                newdom += [(l + off, h + off) for l, h in dom]
                if off != 0:
                    e = X.ite(dom_expr(c.e, dom), X.add(c.e, off), e)
            out.append(SymChar(e, norm(newdom)))
        return self._mk(out)

    def _all(self, name, pred):
        if not self.c:
            return False
        rs = []
        for c in self.c:
            if type(c) is SymChar:
                rs.append(c.isin(class_of(name, pred, c.dom)))
            else:
                rs.append(bool(pred(chr(c))))
        return s_and(*rs)

    def __getattr__(self, name):
        if name in _DIRS[self._real]:
            raise Unsupported('%s.%s on symbolic value' % (self._real.__name__, name))
        raise AttributeError(name)


_groups_cache = {}


_full_cache = {}


def _offset_groups(name, fn, dom):
    """({offset: sub-domain}, sub-domain of characters with longer images) -- tabulated
    from the real interpreter"""
    key = (name, dom)
    r = _groups_cache.get(key)
    if r is None:
        full = _full_cache.get(name)
        if full is None and len(list(dom)) and sum(h - l + 1 for l, h in dom) > 5000:
            full = _full_cache[name] = _offsets(fn, ((0, MAXCP),))
        if full is None:
            r = _offsets(fn, dom)
        else:
            g = {k: inter(v, dom) for k, v in full[0].items()}
            r = {k: v for k, v in g.items() if v}, inter(full[1], dom)
        _groups_cache[key] = r
    return r


def _offsets(fn, dom):
    g, multi = {}, []
    for lo, hi in dom:
        start = lo
        while start <= hi:          # blocks of characters that are all left alone
            end = min(hi, start + 255)
            block = ''.join(map(chr, range(start, end + 1)))
            if fn(block) == block:
                g.setdefault(0, []).append((start, end))
            else:
                for cp in range(start, end + 1):
                    r = fn(chr(cp))
                    if len(r) != 1:
                        multi.append((cp, cp))
                    else:
                        g.setdefault(ord(r) - cp, []).append((cp, cp))
            start = end + 1
    return {k: norm(v) for k, v in g.items()}, norm(multi)


_DIRS = {str: set(dir(str)), bytes: set(dir(bytes)) | set(dir(bytearray))}


class SymStr(_SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: str)
    _real = str

    @staticmethod
    def _mk(chars):
        return make_str(chars)

    @staticmethod
    def _els(o):
        if type(o) is SymStr:
            return o.c
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def _ws(self):
        return WS

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make_str(self.c[_slc(i)])
        if type(i) is SymInt:
            i = core.CTX.concretize(i)
        try:
            return make_str([self.c[i]])
        except IndexError:
            raise IndexError('string index out of range') from None

    def __iter__(self):
        for c in self.c:
            yield make_str([c])

    def __str__(self):
        raise Unsupported('native str() of a symbolic string')

    def __repr__(self):
        return 'SymStr<%d>' % len(self.c)

    def __format__(self, spec):
        raise Unsupported('native format() of a symbolic string')

    def splitlines(self, keepends=False):
        out, cur = [], []
        n, i = len(self.c), 0
        while i < n:
            c = self.c[i]
            if el_in(c, LINEB):
                j = i + 1
                if j < n and el_eq(c, 13) and el_eq(self.c[j], 10):
                    j += 1
                out.append(make_str(cur + (self.c[i:j] if keepends else [])))
                cur = []
                i = j
            else:
                cur.append(c)
                i += 1
        if cur:
            out.append(make_str(cur))
        return out

    def lower(self): return self._map('lower', str.lower)
    def upper(self): return self._map('upper', str.upper)
    def casefold(self): return self._map('casefold', str.casefold)
    def swapcase(self): return self._map('swapcase', str.swapcase)
    def isalpha(self): return self._all('isalpha', str.isalpha)
    def isalnum(self): return self._all('isalnum', str.isalnum)
    def isdigit(self): return self._all('isdigit', str.isdigit)
    def isdecimal(self): return self._all('isdecimal', str.isdecimal)
    def isnumeric(self): return self._all('isnumeric', str.isnumeric)
    def isspace(self): return self._all('isspace', str.isspace)
    def isprintable(self): return self._all('isprintable', str.isprintable) if self.c else True
    def isascii(self): return self._all('isascii', str.isascii) if self.c else True

    def isidentifier(self):
        if not self.c:
            return False
        return s_and(make_sym([self.c[0]])._all('idstart', str.isidentifier),
                     *[make_sym([x])._all('idcont', lambda ch: ('a' + ch).isidentifier())
                       for x in self.c[1:]])

    def isupper(self):
        up = self._any('isupper', str.isupper)
        lo = self._any('islower', str.islower)
        return s_and(up, s_not(lo))

    def islower(self):
        up = self._any('isupper', str.isupper)
        lo = self._any('islower', str.islower)
        return s_and(lo, s_not(up))

    def _any(self, name, pred):
        rs = []
        for c in self.c:
            if type(c) is SymChar:
                rs.append(c.isin(class_of(name, pred, c.dom)))
            else:
                rs.append(bool(pred(chr(c))))
        return s_or(*rs)

    def expandtabs(self, tabsize=8):
        raise Unsupported('expandtabs')

    def translate(self, table):
        out = []
        for c in self.c:
            if type(c) is SymChar:
                hit = False
                for k, v in table.items():
                    if el_eq(c, k):
                        out += ([] if v is None else [v] if isinstance(v, int)
                                else self._els(v))
                        hit = True
                        break
                if not hit:
                    out.append(c)
            else:
                v = table.get(c, c)
                out += [] if v is None else [v] if isinstance(v, int) else self._els(v)
        return make_str(out)

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        for c in self.c:
            if type(c) is not SymChar:
                out += list(chr(c).encode(encoding, errors))
            elif c.dom[-1][1] < 128:
                out.append(c)
            elif c.isin(ASCII):
                out.append(SymChar(c.e, inter(c.dom, ASCII)))
            elif encoding.lower().replace('-', '') == 'utf8':
                e = c.e
                ad, dv, md = X.add, X.div, X.mod
                one = ((128, 191),)
                if el_in(c, ((128, 0x7FF),)):
                    out += [SymChar(ad(192, dv(e, 64)), ((194, 223),)), SymChar(ad(128, md(e, 64)), one)]
                elif el_in(c, ((0x800, 0xFFFF),)):
                    if el_in(c, ((0xD800, 0xDFFF),)):
                        raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
                    out += [SymChar(ad(224, dv(e, 4096)), ((224, 239),)),
                            SymChar(ad(128, md(dv(e, 64), 64)), one),
                            SymChar(ad(128, md(e, 64)), one)]
                else:
                    out += [SymChar(ad(240, dv(e, 262144)), ((240, 244),)),
                            SymChar(ad(128, md(dv(e, 4096), 64)), one),
                            SymChar(ad(128, md(dv(e, 64), 64)), one),
                            SymChar(ad(128, md(e, 64)), one)]
            else:
                raise Unsupported('encode ' + encoding)
        return make_bytes(out)

    def format(self, *args, **kw):
        raise Unsupported('format on symbolic template')


class SymBytes(_SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: bytes)
    _real = bytes

    @staticmethod
    def _mk(chars):
        return make_bytes(chars)

    @staticmethod
    def _els(o):
        if type(o) is SymBytes:
            return o.c
        if isinstance(o, (bytes, bytearray)):
            return list(o)
        return None

    def _ws(self):
        return BWS

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make_bytes(self.c[_slc(i)])
        return el_int(self.c[i])

    def __iter__(self):
        for c in self.c:
            yield el_int(c)

    def __repr__(self):
        return 'SymBytes<%d>' % len(self.c)

    def extend(self, o):
        raise Unsupported('in-place extension of symbolic bytes')

    def decode(self, encoding='utf-8', errors='strict'):
        out = []
        i, n = 0, len(self.c)
        while i < n:
            c = self.c[i]
            if type(c) is not SymChar and c < 128:
                out.append(c)
                i += 1
                continue
            if el_in(c, ASCII):
                out.append(SymChar(c.e, inter(c.dom, ASCII)))
                i += 1
                continue
            # the bytes up to the next ASCII character have to be fixed
            if encoding.lower() not in ('utf-8', 'utf8'):
                raise Unsupported('decode of symbolic non-ascii bytes')
            run = []
            while i < n and not el_in(self.c[i], ASCII):
                c = self.c[i]
                run.append(core.CTX.concretize(SymInt(c.e)) if type(c) is SymChar else c)
                i += 1
            out.extend(ord(z) for z in bytes(run).decode(encoding, errors))
        return make_str(out)

    def text(self):
        """str(self)"""
        q = 34 if bool(rt_contains(self, 39)) and not bool(rt_contains(self, 34)) else 39
        out = [98, q]
        for c in self.c:
            if not el_in(c, BPLAIN) or (type(c) is not SymChar and c in (q, 92)) \
                    or (type(c) is SymChar and el_in(c, norm([(q, q), (92, 92)]))):
                v = core.CTX.concretize(SymInt(c.e)) if type(c) is SymChar else c
                if v == q or v == 92:
                    out.extend((92, v))
                else:
                    out.extend(map(ord, repr(bytes([v]))[2:-1]))
            else:
                out.append(c)
        return make_str(out + [q])


def _slc(s):
    def cv(x):
        if type(x) is SymInt:
            return core.CTX.concretize(x)
        return x
    return slice(cv(s.start), cv(s.stop), cv(s.step))


def make_sym(chars):
    return SymStr(list(chars))


def make_str(chars):
    for c in chars:
        if type(c) is SymChar:
            return SymStr(list(chars))
    return ''.join(map(chr, chars))


def make_bytes(chars):
    for c in chars:
        if type(c) is SymChar:
            return SymBytes(list(chars))
    return bytes(chars)


WS = norm([(cp, cp) for cp in range(0x3001) if chr(cp).isspace()])
BPLAIN = norm([(32, 126)])


def rt_contains(s, v):
    for c in s.c:
        if el_in(c, norm([(v, v)])):
            return True
    return False


BWS = norm([(c, c) for c in b' \t\n\r\x0b\f'])
LINEB = norm([(c, c) for c in (10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029)])


def realize(s):
    """Concretize a symbolic string by forking (small domains only)."""
    if type(s) in (SymStr, SymBytes):
        out = []
        for c in s.c:
            out.append(core.CTX.concretize(SymInt(c.e)) if type(c) is SymChar else c)
        return make_str(out) if type(s) is SymStr else make_bytes(out)
    if type(s) is SymInt:
        return core.CTX.concretize(s)
    return s
