"""symx.rx -- drop-in for the `re` module whose patterns also accept symbolic
strings.  The pattern is parsed by CPython's own regex parser; on symbolic text a
backtracking matcher with the leftmost/greedy semantics of `re` is run, forking on
the membership of symbolic characters in the character classes of the pattern."""
from __future__ import annotations
import re as _re
import re._constants as C
import re._parser as _parser
import re._compiler as _compiler
from . import core, strs
from .core import Unsupported
from .strs import SymStr, SymBytes, SymChar, make_str, make_bytes, el_eq, el_in

for _n in ('A', 'ASCII', 'I', 'IGNORECASE', 'L', 'LOCALE', 'U', 'UNICODE', 'M', 'MULTILINE',
           'S', 'DOTALL', 'X', 'VERBOSE', 'DEBUG', 'NOFLAG', 'RegexFlag', 'error', 'escape',
           'purge'):
    globals()[_n] = getattr(_re, _n)

_SINGLE = {C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY, C.RANGE}


class _Item:
    """a single-character item; cls(dom) = sub-domain it accepts"""

    def __init__(self, op, av, flags, isbytes):
        self.op, self.av, self.flags, self.isbytes = op, av, flags, isbytes
        self.cache = {}
        self._rx = None

    def rx(self):
        if self._rx is None:
            st = _parser.State()
            st.flags = self.flags
            st.str = b'' if self.isbytes else ''
            self._rx = _compiler.compile(_parser.SubPattern(st, [(self.op, self.av)]),
                                         self.flags)
        return self._rx

    def cls(self, dom):
        r = self.cache.get(dom)
        if r is None:
            r = self._cls(dom)
            self.cache[dom] = r
        return r

    def _cls(self, dom):
        op, av = self.op, self.av
        if not (self.flags & _re.IGNORECASE):
            if op is C.LITERAL:
                return strs.inter(dom, ((av, av),))
            if op is C.NOT_LITERAL:
                return strs.inter(dom, strs.compl(((av, av),)))
            if op is C.ANY:
                return dom if self.flags & _re.DOTALL else \
                    strs.inter(dom, strs.compl(((10, 10),)))
            if op is C.IN and all(o in (C.LITERAL, C.RANGE, C.NEGATE) for o, _ in av):
                iv = []
                neg = False
                for o, a in av:
                    if o is C.NEGATE:
                        neg = True
                    elif o is C.LITERAL:
                        iv.append((a, a))
                    else:
                        iv.append(tuple(a))
                iv = strs.norm(iv)
                return strs.inter(dom, strs.compl(iv) if neg else iv)
        m = self.rx().match
        if self.isbytes:
            return strs.norm([(cp, cp) for cp in strs.points(dom) if m(bytes([cp]))])
        return strs.norm([(cp, cp) for cp in strs.points(dom) if m(chr(cp))])

    def test(self, el):
        if type(el) is SymChar:
            sub = self.cls(el.dom)
            if not sub:
                return False
            if sub == el.dom:
                return True
            return bool(el.isin(sub))
        dom = ((el, el),)
        r = self.cache.get(el)
        if r is None:
            r = self.cache[el] = bool(self._cls(dom))
        return r


class _M:
    """matcher state for one attempt"""
    __slots__ = ('c', 'beg', 'end', 'n')

    def __init__(self, c, end):
        self.c, self.end = c, end


def _build(sub, flags, isbytes):
    """list of nodes -> function(m, i, caps, k)"""
    nodes = [_node(op, av, flags, isbytes) for op, av in sub]

    def seq(m, i, caps, k, _j=0):
        if _j == len(nodes):
            return k(m, i, caps)
        return nodes[_j](m, i, caps, lambda m2, i2, c2: seq(m2, i2, c2, k, _j + 1))
    if len(nodes) == 1:
        return nodes[0]
    return seq


def _wordchar(isbytes, flags):
    it = _Item(C.IN, [(C.CATEGORY, C.CATEGORY_WORD)], flags & ~_re.IGNORECASE, isbytes)
    return it


def _node(op, av, flags, isbytes):
    if op in _SINGLE:
        item = _Item(op, av, flags, isbytes)

        def single(m, i, caps, k):
            if i < m.end and item.test(m.c[i]):
                return k(m, i + 1, caps)
            return None
        return single
    if op is C.SUBPATTERN:
        group, addf, delf, p = av
        body = _build(p, (flags | addf) & ~delf, isbytes)
        if group is None:
            return body

        def subp(m, i, caps, k):
            def k2(m2, j, c2):
                c3 = dict(c2)
                c3[group] = (i, j)
                c3['last'] = group
                return k(m2, j, c3)
            return body(m, i, caps, k2)
        return subp
    if op is C.BRANCH:
        alts = [_build(p, flags, isbytes) for p in av[1]]

        def branch(m, i, caps, k):
            for a in alts:
                r = a(m, i, caps, k)
                if r is not None:
                    return r
            return None
        return branch
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
        lo, hi, p = av
        hi = float('inf') if hi is C.MAXREPEAT else hi
        if len(p) == 1 and p[0][0] in _SINGLE:
            item = _Item(p[0][0], p[0][1], flags, isbytes)
            if op is C.MIN_REPEAT:
                def rep1min(m, i, caps, k):
                    n = 0
                    while n < lo:
                        if i < m.end and item.test(m.c[i]):
                            i += 1
                            n += 1
                        else:
                            return None
                    while True:
                        r = k(m, i, caps)
                        if r is not None:
                            return r
                        if n < hi and i < m.end and item.test(m.c[i]):
                            i += 1
                            n += 1
                        else:
                            return None
                return rep1min
            poss = op is C.POSSESSIVE_REPEAT

            def rep1(m, i, caps, k):
                n, j = 0, i
                while n < hi and j < m.end and item.test(m.c[j]):
                    j += 1
                    n += 1
                while n >= lo:
                    r = k(m, j, caps)
                    if r is not None or poss:
                        return r
                    n -= 1
                    j -= 1
                return None
            return rep1
        body = _build(p, flags, isbytes)
        if op is C.MIN_REPEAT:
            def repmin(m, i, caps, k, n=0):
                if n < lo:
                    return body(m, i, caps, lambda m2, j, c2: repmin(m2, j, c2, k, n + 1))
                r = k(m, i, caps)
                if r is not None:
                    return r
                if n < hi:
                    return body(m, i, caps, lambda m2, j, c2:
                                repmin(m2, j, c2, k, n + 1) if j != i else None)
                return None
            return repmin
        if op is C.POSSESSIVE_REPEAT:
            def repposs(m, i, caps, k):
                n = 0
                while n < hi:
                    r = body(m, i, caps, lambda m2, j, c2: (j, c2))
                    if r is None:
                        break
                    n += 1
                    if r[0] == i:
                        i, caps = r
                        n = max(n, lo)
                        break
                    i, caps = r
                return k(m, i, caps) if n >= lo else None
            return repposs

        def rep(m, i, caps, k, n=0):
            if n < lo:
                return body(m, i, caps, lambda m2, j, c2: rep(m2, j, c2, k, n + 1))
            if n < hi:
                r = body(m, i, caps, lambda m2, j, c2:
                         rep(m2, j, c2, k, n + 1) if j != i else None)
                if r is not None:
                    return r
            return k(m, i, caps)
        return rep
    if op is C.ATOMIC_GROUP:
        body = _build(av, flags, isbytes)

        def atomic(m, i, caps, k):
            r = body(m, i, caps, lambda m2, j, c2: (j, c2))
            return None if r is None else k(m, r[0], r[1])
        return atomic
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, p = av
        body = _build(p, flags, isbytes)
        width = p.getwidth()
        neg = op is C.ASSERT_NOT

        def look(m, i, caps, k):
            if direction < 0:
                s = i - width[0]
                r = None if s < 0 else body(m, s, caps, lambda m2, j, c2: (j, c2))
            else:
                r = body(m, i, caps, lambda m2, j, c2: (j, c2))
            if neg:
                return k(m, i, caps) if r is None else None
            return None if r is None else k(m, i, r[1])
        return look
    if op is C.AT:
        word = _wordchar(isbytes, flags)
        if flags & _re.MULTILINE:
            av = {C.AT_BEGINNING: C.AT_BEGINNING_LINE, C.AT_END: C.AT_END_LINE}.get(av, av)

        def isnl(m, i):
            return bool(el_eq(m.c[i], 10))

        def at(m, i, caps, k):
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is C.AT_BEGINNING_LINE:
                ok = i == 0 or isnl(m, i - 1)
            elif av is C.AT_END:
                ok = i == m.end or (i + 1 == m.end and isnl(m, i))
            elif av is C.AT_END_LINE:
                ok = i == m.end or isnl(m, i)
            elif av is C.AT_END_STRING:
                ok = i == m.end
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and word.test(m.c[i - 1])
                b = i < m.end and word.test(m.c[i])
                ok = (a != b) if av is C.AT_BOUNDARY else (a == b)
                if m.end == 0:
                    ok = False
            else:
                raise Unsupported('regex anchor %s' % av)
            return k(m, i, caps) if ok else None
        return at
    if op is C.GROUPREF:
        if flags & _re.IGNORECASE:
            raise Unsupported('case-insensitive backreference')

        def ref(m, i, caps, k):
            g = caps.get(av)
            if g is None:
                return None
            a, b = g
            n = b - a
            if i + n > m.end or not strs.seq_eq(m.c[a:b], m.c[i:i + n]):
                return None
            return k(m, i + n, caps)
        return ref
    if op is C.GROUPREF_EXISTS:
        g, yes, no = av
        y = _build(yes, flags, isbytes)
        n = _build(no, flags, isbytes) if no else (lambda m, i, caps, k: k(m, i, caps))
        return lambda m, i, caps, k: (y if caps.get(g) else n)(m, i, caps, k)
    if op is C.FAILURE:
        return lambda m, i, caps, k: None
    raise Unsupported('regex op %s' % op)


class SxMatch:
    def __init__(self, rx, string, els, pos, endpos, start, end, caps):
        self.re, self.string, self.pos, self.endpos = rx, string, pos, endpos
        self._els, self._caps = els, dict(caps)
        self._caps[0] = (start, end)
        self._mk = make_bytes if rx._isbytes else make_str

    __class__ = property(lambda self: _re.Match)

    def _g(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            g = self.re.groupindex[g]
        if g < 0 or g > self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, group=0):
        return self._caps.get(self._g(group), (-1, -1))

    def start(self, group=0): return self.span(group)[0]
    def end(self, group=0): return self.span(group)[1]

    def _val(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self._mk(self._els[a:b])

    def group(self, *gs):
        if not gs:
            return self._val(0)
        if len(gs) == 1:
            return self._val(gs[0])
        return tuple(self._val(g) for g in gs)

    def __getitem__(self, g): return self._val(g)

    def groups(self, default=None):
        return tuple(self._val(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._val(n, default) for n in self.re.groupindex}

    @property
    def lastindex(self): return self._caps.get('last')

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, j in self.re.groupindex.items():
            if j == i:
                return n
        return None

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))

    def expand(self, template): return _expand(self, template)
    def __bool__(self): return True
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def _expand(m, template):
    if isinstance(template, (SymStr, SymBytes)):
        for c in template.c:
            if type(c) is SymChar and el_eq(c, 92):
                raise Unsupported('symbolic backslash in regex template')
        return template
    real = m.re._real
    parsed = _parser.parse_template(template, real)
    out = '' if isinstance(template, str) else b''
    # 3.12: list of alternating literal / group index
    for x in parsed:
        if isinstance(x, int):
            v = m._val(x, out[:0])
            out = out + v
        else:
            out = out + x
    return out


def _symcheck(text):
    return type(text) is SymStr or type(text) is SymBytes


class SxPattern:
    __class__ = property(lambda self: _re.Pattern)

    def __init__(self, real):
        self._real = real
        self.pattern, self.flags = real.pattern, real.flags
        self.groups, self.groupindex = real.groups, real.groupindex
        self._isbytes = isinstance(real.pattern, bytes)
        self._fn = None

    def __eq__(self, o):
        return type(o) is SxPattern and self._real == o._real

    def __hash__(self): return hash(self._real)
    def __repr__(self): return repr(self._real)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __reduce__(self): return (compile, (self.pattern, self.flags))

    def _matcher(self):
        if self._fn is None:
            flags = self._real.flags & ~_re.DEBUG
            tree = _parser.parse(self.pattern, flags & ~_re.UNICODE if not self._isbytes
                                 else flags)
            self._fn = _build(tree, self._real.flags, self._isbytes)
        return self._fn

    def _range(self, text, pos, endpos):
        n = len(text.c)
        if isinstance(pos, core.SymInt): pos = core.CTX.concretize(pos)
        if isinstance(endpos, core.SymInt): endpos = core.CTX.concretize(endpos)
        endpos = n if endpos is None else max(0, min(int(endpos), n))
        pos = max(0, min(int(pos), n))
        return pos, endpos

    @staticmethod
    def _cv(pos, endpos):
        kw = (int(pos),)
        return kw if endpos is None else (int(pos), int(endpos))

    def _try(self, text, i, pos, endpos, full=False, notempty=-1):
        fn = self._matcher()
        m = _M(text.c, endpos)

        def k(m_, j, caps):
            if full and j != endpos:
                return None
            if j == notempty:
                return None
            return (j, caps)
        r = fn(m, i, {}, k)
        if r is None:
            return None
        return SxMatch(self, text, text.c, pos, endpos, i, r[0], r[1])

    def match(self, string, pos=0, endpos=None):
        if not _symcheck(string):
            return self._real.match(string, *self._cv(pos, endpos))
        pos, endpos = self._range(string, pos, endpos)
        if pos > endpos:
            return None
        return self._try(string, pos, pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        if not _symcheck(string):
            return self._real.fullmatch(string, *self._cv(pos, endpos))
        pos, endpos = self._range(string, pos, endpos)
        if pos > endpos:
            return None
        return self._try(string, pos, pos, endpos, True)

    def search(self, string, pos=0, endpos=None):
        if not _symcheck(string):
            return self._real.search(string, *self._cv(pos, endpos))
        pos, endpos = self._range(string, pos, endpos)
        for i in range(pos, endpos + 1):
            m = self._try(string, i, pos, endpos)
            if m is not None:
                return m
        return None

    def finditer(self, string, pos=0, endpos=None):
        if not _symcheck(string):
            yield from self._real.finditer(string, *self._cv(pos, endpos))
            return
        pos, endpos = self._range(string, pos, endpos)
        i, forbid = pos, -1
        while i <= endpos:
            m = None
            s = i
            while s <= endpos:
                m = self._try(string, s, pos, endpos, notempty=s if s == forbid else -1)
                if m is not None:
                    break
                s += 1
            if m is None:
                return
            yield m
            i = m.end()
            # after any match, an empty match at its end is forbidden only if that
            # match was itself empty (CPython >= 3.7)
            forbid = i if m.end() == m.start() else -1
            if m.end() == m.start():
                forbid = i

    def findall(self, string, pos=0, endpos=None):
        if not _symcheck(string):
            return self._real.findall(string, *self._cv(pos, endpos))
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._val(1, m._mk([])))
            else:
                out.append(m.groups(m._mk([])))
        return out

    def split(self, string, maxsplit=0):
        if not _symcheck(string):
            return self._real.split(string, maxsplit)
        out, last = [], 0
        mk = make_bytes if self._isbytes else make_str
        for m in self.finditer(string):
            if maxsplit and maxsplit <= 0:
                break
            out.append(mk(string.c[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
            if maxsplit:
                maxsplit -= 1
                if maxsplit == 0:
                    break
        out.append(mk(string.c[last:]))
        return out

    def subn(self, repl, string, count=0):
        if not _symcheck(string) and not _symcheck(repl):
            if callable(repl):
                # the callback may return symbolic text
                parts, last, n = [], 0, 0
                for m in self._real.finditer(string):
                    parts.append(string[last:m.start()])
                    parts.append(repl(m))
                    last = m.end()
                    n += 1
                    if count and n >= count:
                        break
                parts.append(string[last:])
                out = string[:0]
                for p in parts:
                    out = out + p
                return out, n
            return self._real.subn(repl, string, count)
        if not _symcheck(string):
            string = SymStr([ord(c) for c in string]) if isinstance(string, str) \
                else SymBytes(list(string))
        out, last, n = string._mk([]), 0, 0
        for m in self.finditer(string):
            out = out + string._mk(string.c[last:m.start()])
            out = out + (repl(m) if callable(repl) else _expand(m, repl))
            last = m.end()
            n += 1
            if count and n >= count:
                break
        return out + string._mk(string.c[last:]), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


_cache = {}


def compile(pattern, flags=0):
    if type(pattern) is SxPattern:
        return pattern
    if _symcheck(pattern):
        raise Unsupported('symbolic regular expression')
    key = (type(pattern), pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = SxPattern(_re.compile(pattern, flags))
    return p


def match(pattern, string, flags=0): return compile(pattern, flags).match(string)
def fullmatch(pattern, string, flags=0): return compile(pattern, flags).fullmatch(string)
def search(pattern, string, flags=0): return compile(pattern, flags).search(string)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def findall(pattern, string, flags=0): return compile(pattern, flags).findall(string)
def finditer(pattern, string, flags=0): return compile(pattern, flags).finditer(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


_orig_escape = _re.escape


def escape(pattern):
    if type(pattern) is SymStr:
        sp = strs.norm([(cp, cp) for cp in range(128)
                        if _orig_escape(chr(cp)) != chr(cp)])
        out = []
        for c in pattern.c:
            if el_in(c, sp):
                out.append(92)
            out.append(c)
        return make_str(out)
    return _orig_escape(pattern)


Pattern = _re.Pattern
Match = _re.Match
