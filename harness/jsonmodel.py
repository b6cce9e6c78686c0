"""Model of json.dumps and json.loads of the standard library for symbolic texts.

Runs as rewritten code; every path is replayed with the real json-module."""
import json

ESC = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}
UNESC = {'"': '"', '\\': '\\', '/': '/', 'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}


def string(s, ensure_ascii):
    r = ''
    for c in s:
        if c == '"' or c == '\\':
            r = r + '\\' + c
        elif c < ' ':
            for k in '\n\r\t\b\f':
                if c == k:
                    r = r + ESC[k]
                    break
            else:
                r = r + '\\u' + hex4(ord(c))
        elif ensure_ascii and c > '~':
            n = int(ord(c)).__index__()
            if n > 0xFFFF:
                n -= 0x10000
                r = r + '\\u' + hex4(0xd800 | ((n >> 10) & 0x3ff)) + '\\u' + hex4(0xdc00 | (n & 0x3ff))
            else:
                r = r + '\\u' + hex4(n)
        else:
            r = r + c
    return '"' + r + '"'


def hex4(n):
    for k in range(0x20):
        if n == k:
            return '%04x' % k
    n = n.__index__()
    return '%04x' % n


def number(o):
    if isinstance(o, float):
        if o != o:
            return 'NaN'
        if o == float('inf'):
            return 'Infinity'
        if o == float('-inf'):
            return '-Infinity'
        return float.__repr__(o)
    return str(int(o))


def is_str(o):
    return isinstance(o, str)


def dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
          cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
    if cls is None:
        cls = json.JSONEncoder
    enc = cls(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular,
              allow_nan=allow_nan, indent=indent, separators=separators, default=default,
              sort_keys=sort_keys, **kw)
    isep, ksep = enc.item_separator, enc.key_separator
    if isinstance(indent, int) and not isinstance(indent, bool):
        indent = ' ' * indent

    def key(k):
        if is_str(k):
            return string(k, ensure_ascii)
        if k is True:
            return '"true"'
        if k is False:
            return '"false"'
        if k is None:
            return '"null"'
        if isinstance(k, (int, float)):
            return '"' + number(k) + '"'
        raise TypeError('keys must be str, int, float, bool or None, not ' + type(k).__name__)

    def rec(o, level):
        if is_str(o):
            return string(o, ensure_ascii)
        if o is None:
            return 'null'
        if o is True:
            return 'true'
        if o is False:
            return 'false'
        if isinstance(o, bool):
            return 'true' if o else 'false'
        if isinstance(o, (int, float)):
            return number(o)
        if isinstance(o, (list, tuple, dict)):
            is_dict = isinstance(o, dict)
            left, right = ('{', '}') if is_dict else ('[', ']')
            if not o:
                return left + right
            if indent is None:
                nl, sep, end = '', isep, ''
            else:
                nl = '\n' + indent * (level + 1)
                sep, end = isep + nl, '\n' + indent * level
            if is_dict:
                parts = [key(k) + ksep + rec(v, level + 1) for k, v in o.items()]
            else:
                parts = [rec(v, level + 1) for v in o]
            r = left + nl
            for i, p in enumerate(parts):
                if i > 0:
                    r = r + sep
                r = r + p
            return r + end + right
        return rec(enc.default(o), level)

    return rec(obj, 0)


def fail(i):
    raise json.JSONDecodeError('Expecting value', '', i)


def blanks(s, i):
    while i < len(s) and s[i] in ' \t\n\r':
        i += 1
    return i


def read_string(s, i):
    r = ''
    while True:
        if i >= len(s):
            fail(i)
        c = s[i]
        if c == '"':
            return r, i + 1
        if c < ' ':
            fail(i)
        if c != '\\':
            r = r + c
            i += 1
            continue
        if i + 1 >= len(s):
            fail(i)
        e = s[i + 1]
        for k in UNESC:
            if e == k:
                r = r + UNESC[k]
                i += 2
                break
        else:
            if e != 'u':
                fail(i)
            n = hexa(s, i + 2)
            i += 6
            if 0xd800 <= n <= 0xdbff and s[i:i + 2] == '\\u':
                m = hexa(s, i + 2)
                if 0xdc00 <= m <= 0xdfff:
                    n = 0x10000 + (((n - 0xd800) << 10) | (m - 0xdc00))
                    i += 6
            r = r + chr(n)


def hexa(s, i):
    n = 0
    if i + 4 > len(s):
        fail(i)
    for k in range(4):
        c = s[i + k]
        if '0' <= c <= '9':
            d = ord(c) - 48
        elif 'a' <= c <= 'f':
            d = ord(c) - 87
        elif 'A' <= c <= 'F':
            d = ord(c) - 55
        else:
            fail(i)
        n = n * 16 + d.__index__()
    return n


WORDS = {'null': None, 'true': True, 'false': False, 'NaN': float('nan'),
         'Infinity': float('inf'), '-Infinity': float('-inf')}


def build(pairs, hook):
    if hook is not None:
        return hook(pairs)
    d = {}
    for k, v in pairs:
        d[k] = v
    return d


def read(s, i, hook=None):
    i = blanks(s, i)
    if i >= len(s):
        fail(i)
    c = s[i]
    if c == '"':
        return read_string(s, i + 1)
    if c == '[':
        r = []
        i = blanks(s, i + 1)
        if s[i:i + 1] == ']':
            return r, i + 1
        while True:
            v, i = read(s, i, hook)
            r.append(v)
            i = blanks(s, i)
            if s[i:i + 1] == ',':
                i += 1
            elif s[i:i + 1] == ']':
                return r, i + 1
            else:
                fail(i)
    if c == '{':
        d = []
        i = blanks(s, i + 1)
        if s[i:i + 1] == '}':
            return build(d, hook), i + 1
        while True:
            i = blanks(s, i)
            if s[i:i + 1] != '"':
                fail(i)
            k, i = read_string(s, i + 1)
            i = blanks(s, i)
            if s[i:i + 1] != ':':
                fail(i)
            v, i = read(s, i + 1, hook)
            d.append((k, v))
            i = blanks(s, i)
            if s[i:i + 1] == ',':
                i += 1
            elif s[i:i + 1] == '}':
                return build(d, hook), i + 1
            else:
                fail(i)
    for w in WORDS:
        if s[i:i + len(w)] == w:
            return WORDS[w], i + len(w)
    k, flt = i, False
    if s[k:k + 1] == '-':
        k += 1
    a = k
    while k < len(s) and '0' <= s[k] <= '9':
        k += 1
    if k == a or (s[a] == '0' and k > a + 1):
        fail(i)
    if s[k:k + 1] == '.':
        k, b, flt = k + 1, k + 1, True
        while k < len(s) and '0' <= s[k] <= '9':
            k += 1
        if k == b:
            fail(i)
    if s[k:k + 1] == 'e' or s[k:k + 1] == 'E':
        k, flt = k + 1, True
        if s[k:k + 1] == '-' or s[k:k + 1] == '+':
            k += 1
        b = k
        while k < len(s) and '0' <= s[k] <= '9':
            k += 1
        if k == b:
            fail(i)
    return (float(s[i:k]) if flt else int(s[i:k])), k


def loads(s, object_pairs_hook=None):
    v, i = read(s, 0, object_pairs_hook)
    i = blanks(s, i)
    if i != len(s):
        fail(i)
    return v
