"""symx.rt -- runtime called by the rewritten code (see symx.rewrite)."""
from __future__ import annotations
import builtins
import collections
import functools
import types
from . import core, strs
from . import expr as X
from .core import SymBool, SymInt, Unsupported, mkbool, mkint, s_and, s_not, s_or
from .strs import SymStr, SymBytes, SymChar, make_str, make_bytes, el_in, el_eq, seq_eq

SYM = (SymStr, SymBytes, SymInt, SymBool)
SYMSET = frozenset(SYM)
SEQ = frozenset((SymStr, SymBytes))

_type = type
_str = str
_bytes = bytes
_isinstance = isinstance


def enter(qualname):
    c = core.CTX
    if c is not None:
        c.ticks += 1
        c.functions.add(qualname)
        if c.ticks > c.tick_limit:
            raise core.TickLimit(qualname)


def tick():
    c = core.CTX
    if c is not None:
        c.ticks += 1
        if c.ticks > c.tick_limit:
            raise core.TickLimit('loop')


def issym(x):
    return _type(x) in SYMSET


def has_sym(x, depth=3):
    t = _type(x)
    if t in SYMSET:
        return True
    if depth and t in (list, tuple):
        return any(has_sym(y, depth - 1) for y in x)
    return False


def anysym(a, k):
    for x in a:
        if _type(x) in SYMSET:
            return True
    if k:
        for x in k.values():
            if _type(x) in SYMSET:
                return True
    return False


# ------------------------------------------------------------ conversions
def to_str(x=''):
    """str(x), possibly symbolic"""
    t = _type(x)
    if t is _str or t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return _str(bool(x))
    if t is SymBytes:
        return x.text()
    if _isinstance(x, (list, tuple, dict)) and t.__str__ in (object.__str__,) \
            and t.__repr__ in (list.__repr__, tuple.__repr__, dict.__repr__):
        return to_repr(x)
    if _isinstance(x, BaseException) and _type(t.__str__) is not types.FunctionType:
        if len(x.args) == 1:
            return to_str(x.args[0]) if not _isinstance(x, KeyError) else to_repr(x.args[0])
        if any(has_sym(a) for a in x.args):
            return to_repr(x.args)
        return _str(x)
    m = t.__str__
    if _type(m) is types.FunctionType:
        r = m(x)
        if not _isinstance(r, _str):
            raise TypeError('__str__ returned non-string (type %s)' % _type(r).__name__)
        return r
    if m is object.__str__:
        return to_repr(x)
    return _str(x)


def int_to_str(x):
    """decimal representation of a symbolic int; forks over sign and digit count"""
    neg = bool(x < 0)
    v = -x if neg else x
    n = 1
    while bool(v >= 10 ** n):
        n += 1
        if n > 9:
            return _str(core.CTX.concretize(x))
    v = v if _type(v) is SymInt else None
    if v is None:
        return _str(core.CTX.concretize(x))
    ds = [SymChar(X.add(48, X.mod(X.div(v.e, 10 ** (n - 1 - i)), 10)) if i
                  else X.add(48, X.div(v.e, 10 ** (n - 1))),
                  ((48, 57),)) for i in range(n)]
    return make_str(([45] if neg else []) + ds)


def to_repr(x):
    t = _type(x)
    if t is SymStr:
        return str_repr(x)
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return repr(bool(x))
    if t is SymBytes:
        raise Unsupported('repr(bytes)')
    if t is list:
        return _join(', ', [to_repr(y) for y in x], '[', ']')
    if t is tuple:
        if len(x) == 1:
            return '(' + to_repr(x[0]) + ',)'
        return _join(', ', [to_repr(y) for y in x], '(', ')')
    if t in (dict, collections.OrderedDict) and t is dict:
        return _join(', ', [to_repr(k) + ': ' + to_repr(v) for k, v in x.items()], '{', '}')
    m = t.__repr__
    if _type(m) is types.FunctionType:
        return m(x)
    if _isinstance(x, tuple) and hasattr(t, '_fields'):
        return t.__name__ + _join(', ', [f + '=' + to_repr(v)
                                         for f, v in zip(t._fields, x)], '(', ')')
    return repr(x)


def _join(sep, parts, pre='', post=''):
    r = pre
    for i, p in enumerate(parts):
        r = r + (sep + p if i else p)
    return r + post


def str_repr(s):
    has1 = s_or(*[el_eq(c, 39) for c in s.c])
    q = 39
    if has1 and not s_or(*[el_eq(c, 34) for c in s.c]):
        q = 34
    out = [q]
    for c in s.c:
        if _type(c) is not SymChar:
            r = repr(chr(c))[1:-1]
            if c in (39, 34):
                r = '\\' + chr(c) if c == q else chr(c)
            out += [ord(z) for z in r]
        elif el_in(c, ((q, q), (92, 92))) if True else False:
            out += [92, c]
        elif el_eq(c, 10):
            out += [92, 110]
        elif el_eq(c, 13):
            out += [92, 114]
        elif el_eq(c, 9):
            out += [92, 116]
        elif c.isin(strs.class_of('isprintable', _str.isprintable, c.dom)):
            out.append(c)
        else:
            v = core.CTX.concretize(SymInt(c.e))
            out += [ord(z) for z in repr(chr(v))[1:-1]]
    out.append(q)
    return make_str(out)


def fstr(*parts):
    """f-string: parts are constants (str) or (value, conversion, spec) tuples"""
    r = ''
    for p in parts:
        if _type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = to_repr(v)
            elif conv == 115:
                v = to_str(v)
            elif conv == 97:
                v = ascii(v)
            p = to_format(v, spec)
        r = r + p
    return r


def to_format(v, spec=''):
    t = _type(v)
    if spec == '':
        if t.__format__ is object.__format__ or t in SYMSET or t in (_str, int, list, tuple, dict):
            return to_str(v)
        return format(v, spec)
    if t is SymStr:
        import re
        m = re.fullmatch(r'(.)?([<>])?(\d+)', spec)
        if m:
            raise Unsupported('format spec ' + spec)
        raise Unsupported('format spec ' + spec)
    if t in SYMSET:
        v = core.CTX.concretize(v) if t is SymInt else bool(v)
    return format(v, spec)


def str_mod(a, b):
    args = b if _isinstance(b, tuple) else (b,)
    out, i, k = '', 0, 0
    n = len(a)
    while i < n:
        j = a.find('%', i)
        if j < 0:
            out = out + a[i:]
            break
        out = out + a[i:j]
        c = a[j + 1]
        if c == '%':
            out = out + '%'
        elif c == 's':
            out = out + to_str(args[k]); k += 1
        elif c == 'r':
            out = out + to_repr(args[k]); k += 1
        elif c in 'id':
            out = out + to_str(args[k]); k += 1
        else:
            raise Unsupported('%-format ' + a)
        i = j + 2
    if k != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return out


def bytes_mod(a, args):
    """bytes % arguments, some of which are symbolic"""
    out, i, k = b'', 0, 0
    while i < len(a):
        j = a.find(b'%', i)
        if j < 0:
            out = out + a[i:]
            break
        out = out + a[i:j]
        c = a[j + 1:j + 2]
        if c == b'%':
            out = out + b'%'
        elif c in (b's', b'b'):
            if not _isinstance(args[k], (bytes, bytearray)):
                raise TypeError('%b requires a bytes-like object')
            out = out + args[k]; k += 1
        elif c in (b'i', b'd'):
            out = out + to_str(args[k]).encode('ascii'); k += 1
        else:
            raise Unsupported('%-format of bytes')
        i = j + 2
    return out


def mod(a, b):
    ta = _type(a)
    if ta is _str:
        if ta is _str and (_type(b) is tuple or not _isinstance(b, (int, float, _str))
                           or _type(b) in SYMSET):
            if has_sym(b) or (not _isinstance(b, (tuple, dict, int, float, _str))) or \
                    (_type(b) is tuple and any(not _isinstance(x, (int, float, _str)) for x in b)):
                if not _isinstance(b, dict):
                    return str_mod(a, b)
        return a % b
    if ta is SymStr:
        raise Unsupported('% on symbolic template')
    if ta is _bytes and (_type(b) in SYMSET or _type(b) is tuple and has_sym(b)):
        return bytes_mod(a, b if _type(b) is tuple else (b,))
    return a % b


def str_format(tmpl, a, k):
    import string
    out, auto = '', 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        out = out + lit
        if field is None:
            continue
        if field == '':
            v = a[auto]; auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported('format field ' + field)
        out = fstr(out, (v, ord(conv) if conv else -1, spec or ''))
    return out


# -------------------------------------------------------------- containers
def contains(c, x):
    """x in c"""
    tc = _type(c)
    if tc is SymStr or tc is SymBytes:
        return c.contains(x)
    if tc is _str:
        if _type(x) is SymStr:
            if len(x.c) == 1:
                return el_in(x.c[0], strs.as_domain(c)) if c else False
            return SymStr([ord(z) for z in c]).contains(x)
        return x in c
    if tc is _bytes:
        if issym(x):
            if _type(x) is SymInt:
                x = core.CTX.concretize(x)
                return x in c
            return SymBytes(list(c)).contains(x)
        return x in c
    if _isinstance(c, (set, frozenset, dict)) or tc is KEYVIEW:
        if _type(x) in SEQ:
            if tc.__contains__ in (set.__contains__, frozenset.__contains__, dict.__contains__) \
                    or tc is KEYVIEW:
                return s_or(*[y == x if y is not x else True for y in c
                              if _isinstance(y, _str) or _isinstance(y, _bytes)])
            return tc.__contains__(c, x)
        if core.CTX is not None and core.CTX.symkeys and _isinstance(x, (_str, _bytes)):
            for y in c:
                if _type(y) in SEQ and y == x:
                    return True
        if _type(x) is tuple and has_sym(x):
            return s_or(*[tuple_eq(x, y) for y in c])
        return x in c
    if tc in (list, tuple, collections.deque):
        if issym(x) or any(_type(y) in SYMSET for y in c):
            return s_or(*[True if y is x else eq(y, x) for y in c])
        return x in c
    return x in c


def tuple_eq(x, y):
    if _type(y) is not tuple or len(x) != len(y):
        return False
    return s_and(*[eq(a, b) for a, b in zip(x, y)])


KEYVIEW = _type({}.keys())


def eq(a, b):
    r = a == b
    return r


def not_contains(c, x):
    return s_not(contains(c, x))


def _find_key(d, k):
    """existing key of dict d equal to k, or None; forks"""
    if _type(k) in SEQ:
        for y in d:
            if y is k:
                return y
        for y in d:
            if _isinstance(y, k._real) and y == k:
                return y
        return None
    for y in d:
        if _type(y) in SEQ and _isinstance(k, y._real) and y == k:
            return y
    return k


def _tuple_key(k):
    if _type(k) is tuple and has_sym(k):
        return tuple(_tuple_key(x) for x in k)
    if _type(k) in SYMSET:
        return strs.realize(k)
    return k


def _dictkey(d, k):
    """(key, present?) for lookups; key is hashable natively"""
    if _type(k) in SEQ:
        return _find_key(d, k)
    if core.CTX is not None and core.CTX.symkeys and _isinstance(k, (_str, _bytes)):
        return _find_key(d, k)
    if _type(k) is tuple and has_sym(k):
        return _tuple_key(k)
    return k


def newkey(k):
    if _type(k) in SEQ:
        k._hashable = True
        core.CTX.symkeys += 1
    elif _type(k) is tuple and has_sym(k):
        return _tuple_key(k)
    return k


def needs(k):
    t = _type(k)
    return t in SEQ or (core.CTX is not None and core.CTX.symkeys and (t is _str or t is _bytes)) \
        or (t is tuple and has_sym(k))


def getitem(o, i):
    if _isinstance(o, dict) and needs(i):
        k = _dictkey(o, i)
        if k is None and _type(i) in SEQ:
            if hasattr(_type(o), '__missing__'):
                if _isinstance(o, collections.defaultdict):
                    v = o.default_factory()
                    o[newkey(i)] = v
                    return v
                return o.__missing__(i)
            raise KeyError(i)
        return o[k]
    if _type(o) is _str and _type(i) is SymInt and core.CTX is not None:
        n = len(o)
        return o[i]
    return o[i]


def setitem(o, i, v):
    if _isinstance(o, dict) and needs(i):
        k = _dictkey(o, i)
        if k is None and _type(i) in SEQ:
            k = newkey(i)
        o[k] = v
        return
    o[i] = v


def delitem(o, i):
    if _isinstance(o, dict) and needs(i):
        k = _dictkey(o, i)
        if k is None and _type(i) in SEQ:
            raise KeyError(i)
        del o[k]
        return
    del o[i]


def mkdict(*items):
    d = {}
    for it in items:
        if len(it) == 1:
            for k in it[0]:
                setitem(d, k, it[0][k])
        else:
            setitem(d, it[0], it[1])
    return d


def mkdictcomp(gen):
    d = {}
    for k, v in gen:
        setitem(d, k, v)
    return d


def mkset(*items):
    s = set()
    for x in items:
        set_add(s, x)
    return s


def mksetcomp(gen):
    s = set()
    for x in gen:
        set_add(s, x)
    return s


def set_add(s, x):
    if _type(x) in SEQ or needs(x):
        if _type(x) is tuple:
            x = _tuple_key(x)
        elif contains(s, x):
            return
        else:
            x = newkey(x)
    s.add(x)


def set_discard(s, x):
    if needs(x):
        for y in list(s):
            if _isinstance(y, (_str, _bytes)) and y == x:
                s.discard(y)
                return True
        return False
    if x in s:
        s.discard(x)
        return True
    return False


def _symset(s):
    return core.CTX is not None and core.CTX.symkeys and any(_type(y) in SEQ for y in s)


def binop_set(op, a, b):
    """set operators when symbolic strings are involved"""
    if op == '-':
        return _type(a)(_dedup(x for x in a if not contains(b, x)))
    if op == '&':
        return _type(a)(_dedup(x for x in a if contains(b, x)))
    if op == '|':
        r = set(a)
        for x in b:
            set_add(r, x)
        return _type(a)(r)
    if op == '^':
        return binop_set('|', binop_set('-', a, b), binop_set('-', b, a))


def _dedup(it):
    return list(it)


_OPS = {'-': lambda a, b: a - b, '&': lambda a, b: a & b, '|': lambda a, b: a | b,
        '^': lambda a, b: a ^ b}


def setop(op, a, b):
    if _isinstance(a, (set, frozenset, KEYVIEW)) and _isinstance(b, (set, frozenset, KEYVIEW)) \
            and (_symset(a) or _symset(b)):
        if _type(a) is KEYVIEW:
            a = set(a)
        return binop_set(op, a, b)
    return _OPS[op](a, b)


def _dict_eq(a, b):
    if len(a) != len(b):
        return False
    for k, v in a.items():
        j = _find_key(b, k)
        if j is None or j not in b:
            return False
        if not compare('==', v, b[j]):
            return False
    return True


def compare(op, a, b):
    """== != <= < >= > with set support"""
    if _isinstance(a, (set, frozenset)) and _isinstance(b, (set, frozenset)) \
            and (_symset(a) or _symset(b)):
        sub = lambda x, y: s_and(*[contains(y, e) for e in x])
        if op == '==':
            return s_and(sub(a, b), sub(b, a))
        if op == '!=':
            return s_not(s_and(sub(a, b), sub(b, a)))
        if op == '<=':
            return sub(a, b)
        if op == '>=':
            return sub(b, a)
        if op == '<':
            return s_and(sub(a, b), s_not(sub(b, a)))
        return s_and(sub(b, a), s_not(sub(a, b)))
    if op in ('==', '!=') and _isinstance(a, dict) and _isinstance(b, dict) \
            and core.CTX is not None and core.CTX.symkeys \
            and any(_type(k) in SEQ for k in (*a, *b)):
        r = _dict_eq(a, b)
        return r if op == '==' else s_not(r)
    if op == '==':
        return a == b
    if op == '!=':
        return a != b
    if op == '<=':
        return a <= b
    if op == '>=':
        return a >= b
    if op == '<':
        return a < b
    return a > b


# ---------------------------------------------------------------- calls
def b_int(x=0, base=None):
    t = _type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(X.ite(x.e, 1, 0))
    if t in SEQ:
        s = x.strip()
        if _type(s) not in SEQ:
            return int(s) if base is None else int(s, base)
        bs = 10 if base is None else int(base)
        c = s.c
        neg = False
        i = 0
        if len(c) > 1 and el_in(c[0], ((43, 43), (45, 45))):
            neg = bool(el_eq(c[0], 45))
            i = 1
        v = 0
        digits = strs.norm([(48, 47 + min(bs, 10))])
        alpha = strs.norm([(65, 54 + bs), (97, 86 + bs)]) if bs > 10 else ()
        for j in range(i, len(c)):
            e = c[j]
            if el_in(e, digits):
                v = X.add(X.scale(v, bs), X.sub(strs.el_z3(e), 48))
            elif alpha and el_in(e, alpha):
                z = strs.el_z3(e)
                v = X.add(X.scale(v, bs), X.ite(X.ge(z, 97), X.sub(z, 87), X.sub(z, 55)))
            else:
                if el_in(e, ((95, 95),)) or not el_in(e, strs.ASCII):
                    raise Unsupported('int() with underscore or non-ascii digits')
                raise ValueError('invalid literal for int() with base %d' % bs)
        r = mkint(X.neg(v) if neg else v)
        return r
    if base is None:
        if _type(x) not in (int, float, _str, bool) and hasattr(_type(x), '__int__') \
                and _type(_type(x).__int__) is types.FunctionType:
            return _type(x).__int__(x)
        return int(x)
    return int(x, base)


def b_ord(x):
    if _type(x) in SEQ:
        if len(x.c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found'
                            % len(x.c))
        return strs.el_int(x.c[0])
    return ord(x)


def b_chr(x):
    if _type(x) is SymInt:
        if bool(x < 0) or bool(x > 0x10FFFF):
            raise ValueError('chr() arg not in range(0x110000)')
        return make_str([SymChar(x.e, ((0, 0x10FFFF),))])
    return chr(x)


def b_len(x):
    f = getattr(_type(x), '__len__', None)
    if _type(f) is types.FunctionType and _type(x) not in SEQ:
        r = f(x)
        if _type(r) is SymInt:
            return r
        return len(range(r)) if r > 1 << 20 else r if _type(r) is int else len(x)
    return len(x)


def b_bool(x=False):
    if _type(x) is SymBool:
        return x
    if _type(x) is SymInt:
        return mkbool(X.not_(X.eq(x.e, 0)))
    return bool(x)


def b_type(*a):
    if len(a) == 1 and _type(a[0]) in SYMSET:
        return a[0].__class__
    return type(*a)


def b_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def b_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def b_sorted(it, key=None, reverse=False):
    if key is not None:
        kk = lambda x: call(key, x)
        return sorted(it, key=kk, reverse=reverse)
    return sorted(it, reverse=reverse)


def b_set(it=()):
    return mksetcomp(it)


def b_frozenset(it=()):
    return frozenset(mksetcomp(it))


def b_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if hasattr(src, 'keys'):
            for key in src.keys():
                setitem(d, key, src[key])
        else:
            for key, v in src:
                setitem(d, key, v)
    for key, v in k.items():
        setitem(d, key, v)
    return d


def b_hash(x):
    # strings hashed by the code under test (user-defined __hash__): a hash function that is
    # legitimate for symbolic strings, too; the subsequent == decides
    if core.CTX is not None and (_type(x) in SEQ or _isinstance(x, (_str, _bytes))):
        return len(x)
    return hash(x)


def b_print(*a, **k):
    return None if any(has_sym(x) for x in a) else print(*a, **k)


def b_bytes(*a, **k):
    if a and _type(a[0]) is SymBytes:
        return a[0]
    if a and _type(a[0]) is SymStr:
        return a[0].encode(*a[1:])
    if a and _type(a[0]) in (list, tuple) and has_sym(a[0]):
        return make_bytes([SymChar(x.e, ((0, 255),)) if _type(x) is SymInt else x for x in a[0]])
    return bytes(*a, **k)


def b_bytearray(*a, **k):
    if a and _type(a[0]) is SymBytes:
        raise Unsupported('bytearray of symbolic bytes')
    return bytearray(*a, **k)


def b_minmax(name):
    real = getattr(builtins, name)
    sign = name == 'min'

    def mm(*a, **k):
        if len(a) == 2 and not k and _type(a[0]) in (int, SymInt) and _type(a[1]) in (int, SymInt) \
                and (_type(a[0]) is SymInt or _type(a[1]) is SymInt):
            x, y = core.zint(a[0]), core.zint(a[1])
            return mkint(X.ite(X.lt(y, x), y, x) if sign else X.ite(X.gt(y, x), y, x))
        if 'key' in k:
            key = k['key']
            k['key'] = lambda x: call(key, x)
        return real(*a, **k)
    return mm


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def b_getattr(o, name, *d):
    if _type(name) is SymStr:
        raise Unsupported('getattr with symbolic name')
    return getattr(o, name, *d)


def b_format(v, spec=''):
    return to_format(v, spec)


def b_str(*a, **k):
    if len(a) > 1 or k:
        if _type(a[0]) is SymBytes:
            return a[0].decode(*a[1:], **k)
        return str(*a, **k)
    return to_str(*a)


def b_float(x=0.0):
    if _type(x) is SymStr:
        raise Unsupported('float of symbolic string')
    return float(x)


def b_list(it=()):
    return list(it)


SHIMS = {}


def _install():
    for name, f in (('int', b_int), ('ord', b_ord), ('chr', b_chr), ('len', b_len),
                    ('bool', b_bool), ('type', b_type), ('map', b_map), ('filter', b_filter),
                    ('sorted', b_sorted), ('set', b_set), ('frozenset', b_frozenset),
                    ('dict', b_dict), ('hash', b_hash), ('print', b_print), ('bytes', b_bytes),
                    ('bytearray', b_bytearray), ('min', b_minmax('min')),
                    ('max', b_minmax('max')), ('any', b_any), ('all', b_all), ('sum', b_sum),
                    ('getattr', b_getattr), ('format', b_format), ('str', b_str),
                    ('repr', to_repr), ('float', b_float)):
        SHIMS[getattr(builtins, name)] = f


_install()
_SHIM_TYPES = {k for k in SHIMS if isinstance(k, type)}

_PASS_BUILTINS = {isinstance, issubclass, iter, next, id, callable, hasattr, setattr, getattr,
                  enumerate, zip, range, reversed, list, tuple, slice, abs, divmod, round, super,
                  object, pow, vars}


def call(f, /, *a, **k):
    h = DISPATCH.get(_type(f))
    if h is None:
        return f(*a, **k)
    return h(f, a, k)


def _call_type(f, a, k):
    if core.CTX is not None:
        s = SHIMS.get(f)
        if s is not None:
            return s(*a, **k)
        if a and isinstance(f, type) and issubclass(f, (int, float)) and not k \
                and isinstance(a[0], (SymStr, core.SymInt)):
            # a subclass of a number type: the value is fixed
            v = a[0]
            if isinstance(v, SymStr):
                v = (SHIMS.get(int) if issubclass(f, int) else SHIMS.get(float))(v)
            if isinstance(v, core.SymInt):
                v = core.CTX.concretize(v)
            return f(v, *a[1:])
    return f(*a, **k)


def _call_builtin(f, a, k):
    if core.CTX is None:
        return f(*a, **k)
    s = SHIMS.get(f) if not hasattr(f, '__self__') or _isinstance(f.__self__, types.ModuleType) \
        else None
    if s is not None:
        return s(*a, **k)
    o = f.__self__
    t = _type(o)
    if o is builtins:
        return f(*a, **k)
    if t is types.ModuleType:
        if anysym(a, k) and f not in _PASS_C:
            r = _MODFUNCS.get((o.__name__, f.__name__))
            if r is not None:
                return r(*a, **k)
            raise Unsupported('%s.%s on a symbolic argument' % (o.__name__, f.__name__))
        return f(*a, **k)
    if t is _str:
        name = f.__name__
        if name == 'join':
            lst = list(a[0])
            if any(_type(x) in SEQ for x in lst):
                return SymStr([ord(z) for z in o]).join(lst)
            return o.join(lst)
        if name == 'format':
            if any(has_sym(x) or _custom(x) for x in a) or \
                    any(has_sym(x) or _custom(x) for x in k.values()):
                return str_format(o, a, k)
            return f(*a, **k)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if name in ('startswith', 'endswith', 'find', 'rfind', 'count', 'index', 'rindex',
                        'ljust', 'rjust', 'split', 'center') and _type(a[0]) is SymInt:
                a = tuple(strs.realize(x) for x in a)
                return f(*a, **k)
            return getattr(SymStr([ord(z) for z in o]), name)(*a, **k)
        return f(*a, **k)
    if t is _bytes:
        name = f.__name__
        if name == 'join':
            lst = list(a[0])
            if any(_type(x) in SEQ for x in lst):
                return SymBytes(list(o)).join(lst)
            return o.join(lst)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return getattr(SymBytes(list(o)), name)(*a, **k)
        return f(*a, **k)
    if _isinstance(o, dict):
        return _dict_method(o, f, a, k)
    if _isinstance(o, (set, frozenset)):
        return _set_method(o, f, a, k)
    if t is list:
        name = f.__name__
        if name == 'sort' and k.get('key') is not None:
            key = k['key']
            k = dict(k, key=lambda x: call(key, x))
        return f(*a, **k)
    if anysym(a, k) and t not in _PASS_SELF:
        raise Unsupported('%s.%s on a symbolic argument' % (t.__name__, f.__name__))
    return f(*a, **k)


_PASS_SELF = {list, tuple, collections.deque, types.GeneratorType, types.FunctionType,
              types.MethodType, functools.partial, slice}
_PASS_C = set()
_MODFUNCS = {}


def _reg():
    import _bisect, _functools, _operator, _heapq, _thread, math, copy, itertools
    for m in (_bisect, _functools, _heapq, _operator, itertools):
        for n in dir(m):
            v = getattr(m, n)
            if callable(v):
                try:
                    _PASS_C.add(v)
                except TypeError:
                    pass


_reg()


def _custom(x):
    return _type(_type(x).__str__) is types.FunctionType or \
        (_type(x) in (list, tuple, dict) and bool(x))


def _dict_method(o, f, a, k):
    name = f.__name__
    if name in ('get', 'pop', 'setdefault') and needs(a[0]) \
            and _type(getattr(_type(o), name)) is types.MethodDescriptorType:
        key = _dictkey(o, a[0])
        if key is None and _type(a[0]) in SEQ:
            if name == 'get':
                return a[1] if len(a) > 1 else None
            if name == 'pop':
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            o[newkey(a[0])] = v = (a[1] if len(a) > 1 else None)
            return v
        return f(key, *a[1:], **k)
    if name == 'update' and core.CTX.symkeys:
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for key in list(src.keys()):
                    setitem(o, key, src[key])
            else:
                for key, v in src:
                    setitem(o, key, v)
        for key, v in k.items():
            setitem(o, key, v)
        return None
    if name == 'update' and a and not hasattr(a[0], 'keys'):
        for key, v in a[0]:
            setitem(o, key, v)
        for key, v in k.items():
            setitem(o, key, v)
        return None
    if name == 'fromkeys':
        d = {}
        for key in a[0]:
            setitem(d, key, a[1] if len(a) > 1 else None)
        return d
    return f(*a, **k)


def _set_method(o, f, a, k):
    name = f.__name__
    if name == 'add':
        return set_add(o, a[0])
    if name in ('discard', 'remove'):
        ok = set_discard(o, a[0])
        if not ok and name == 'remove':
            raise KeyError(a[0])
        return None
    if name == 'update':
        for it in a:
            for x in it:
                set_add(o, x)
        return None
    if core.CTX.symkeys:
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            r = o
            op = {'union': '|', 'intersection': '&', 'difference': '-',
                  'symmetric_difference': '^'}[name]
            for it in a:
                r = setop(op, r, mksetcomp(it))
            return r
        if name in ('issubset', 'issuperset'):
            return compare('<=' if name == 'issubset' else '>=', o, mksetcomp(a[0]))
        if name.endswith('_update') or name == 'isdisjoint':
            raise Unsupported('set.' + name)
    return f(*a, **k)


def _call_methdesc(f, a, k):
    """unbound C method such as str.join, list.append"""
    if core.CTX is None or not a:
        return f(*a, **k)
    o = a[0]
    if _type(o) in SEQ:
        return getattr(o, f.__name__)(*a[1:], **k)
    return call(getattr(o, f.__name__), *a[1:], **k)


def _call_partial(f, a, k):
    return call(f.func, *f.args, *a, **{**f.keywords, **k})


DISPATCH = {
    type: _call_type,
    types.BuiltinFunctionType: _call_builtin,
    types.MethodDescriptorType: _call_methdesc,
    types.MethodWrapperType: lambda f, a, k: _call_wrapper(f, a, k),
    functools.partial: _call_partial,
}


def _call_wrapper(f, a, k):
    # e.g. d.__setitem__, ''.__add__
    o = f.__self__
    n = f.__name__
    if core.CTX is not None:
        if n == '__getitem__':
            return getitem(o, *a)
        if n == '__setitem__':
            return setitem(o, *a)
        if n == '__contains__':
            return contains(o, *a)
        if n in ('__str__', '__repr__'):
            return (to_str if n == '__str__' else to_repr)(o)
    return f(*a, **k)


def rbool(x):
    return bool(x)


def rnot(x):
    """not x, without forking"""
    if _type(x) is SymBool:
        return s_not(x)
    return not x


_real_lru = functools.lru_cache


def lru_cache(maxsize=128, typed=False):
    def deco(fn):
        cached = _real_lru(maxsize, typed)(fn)

        @functools.wraps(fn)
        def wrapper(*a, **k):
            if core.CTX is not None:
                return fn(*a, **k)
            return cached(*a, **k)
        wrapper.cache_clear = cached.cache_clear
        wrapper.cache_info = cached.cache_info
        return wrapper
    if callable(maxsize) and not isinstance(maxsize, int):
        fn, maxsize = maxsize, 128
        return deco(fn)
    return deco


def install():
    functools.lru_cache = lru_cache
    functools.cache = lru_cache(None)
    install_json()
    install_ospath()


def _deep_sym(o, depth=20):
    """contains symbolic parts, or objects that might be encoded to such"""
    t = _type(o)
    if t in (str, int, float, bool, _type(None)) or depth < 0:
        return False
    if t in (list, tuple):
        return any(_deep_sym(x, depth - 1) for x in o)
    if t is dict:
        return any(_deep_sym(k, depth - 1) or _deep_sym(v, depth - 1) for k, v in o.items())
    return True


def install_json():
    """json.dumps and json.loads of symbolic values are run as harness/jsonmodel.py"""
    import json
    dumps, loads = json.dumps, json.loads

    def model_dumps(obj, **k):
        if core.CTX is not None and _deep_sym(obj):
            import jsonmodel
            return jsonmodel.dumps(obj, **k)
        return dumps(obj, **k)

    def model_loads(s, **k):
        if core.CTX is not None and issym(s) and set(k) <= {'object_pairs_hook'}:
            import jsonmodel
            return jsonmodel.loads(s if _type(s) is SymStr
                                   else s.decode('utf-8', 'surrogatepass'), **k)
        return loads(s, **k)
    json.dumps, json.loads = model_dumps, model_loads


def install_ospath():
    """the string functions of os.path on symbolic paths are run as harness/pathmodel.py"""
    import os.path

    def wrap(name, orig):
        def f(*a, **k):
            if any(_type(x) is SymStr for x in a):
                import pathmodel
                return getattr(pathmodel, name)(*a, **k)
            return orig(*a, **k)
        f.__name__ = name
        return f
    for name in ('join', 'split', 'basename', 'dirname', 'isabs', 'splitext', 'normpath', 'abspath'):
        setattr(os.path, name, wrap(name, getattr(os.path, name)))


def contains_r(x, c):
    return contains(c, x)


def not_contains_r(x, c):
    return s_not(contains(c, x))


def setitem_r(v, o, i):
    setitem(o, i, v)
