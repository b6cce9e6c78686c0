"""P28: the text tools of the toolkit keep the text intact and well-formed."""
import ast
import os
from hutil import Job, ANY
from DHParser.toolkit import (subf, escape_ctrl_chars, normalize_docstring, abbreviate_middle,
                              wrap_str_literal, wrap_str_nicely, escape_formatstr, as_identifier,
                              matching_brackets, _sub_size, smart_list, expand_table,
                              relative_path, split_path, normalize_circular_path, re)

ASSUMPTIONS = ['string literals that are wrapped are well-formed Python string literals '
               '(prefix, quotation marks, escape sequences)',
               'texts for which brackets are matched in regex-mode are well-formed with respect to '
               'square brackets outside of comments (every charset is closed)']


WIDE = [(0, 0), (8, 13), (27, 27), (31, 0x80), (0xA0, 0xFF), (0x200B, 0x200B), (0x2028, 0x2028),
        (0x4E00, 0x4FFF), (0xE000, 0xE000), (0x1F600, 0x1F61F), (0x10FFFF, 0x10FFFF)]


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = 5 if q else 7
    J += [Job('brackets', 'brackets', dict(n=n), weight=20, max_paths=400000,
              bounds='all texts of up to %d characters from "(", ")", any other; with and without '
                     'a list for unmatched brackets' % n),
          Job('brackets-2', 'brackets2', dict(n=n), weight=20, max_paths=400000,
              bounds='texts of up to %d characters from /, *, x; brackets /* and */' % n),
          Job('brackets-rx', 'brackets_rx', dict(n=n), weight=200, max_paths=800000,
              bounds='all texts of up to %d characters from ( ) [ ] \\ x; round and square brackets' % n)]
    n = 6 if q else 9
    J += [Job('nicely', 'nicely', dict(n=n, col=3, tol=2), weight=30, max_paths=400000,
              bounds='all texts of up to %d characters from blank, ")", ",", newline, x; wrapped '
                     'after column 3, tolerance 2' % n),
          Job('nicely-5', 'nicely', dict(n=n + 2, col=5, tol=4, abc=[(32, 32), (41, 41), (120, 120)]),
              weight=100, max_paths=400000,
              bounds='all texts of up to %d characters from blank, ")", x; wrapped after column 5, '
                     'tolerance 4' % (n + 2))]
    n = 6 if q else 8
    for pre in ('', 'r', 'fr', 'f'):
        J.append(Job('literal-' + pre, 'literal', dict(n=n, pre=pre), weight=60, max_paths=400000,
                     bounds='all texts of up to %d characters (backslash, digit, x, quote, braces) '
                            'as literals with prefix "%s", wrapped after 2 to 4 columns' % (n, pre)))
    J.append(Job('literal-list', 'literal_list', dict(n=2 if q else 3), weight=5,
                 bounds='up to 3 parts of up to %d characters' % (2 if q else 3)))
    n = 3 if q else 4
    J.append(Job('escape', 'escape', dict(n=2 if q else 3, abc=WIDE), weight=20,
                 max_paths=400000, bounds='all texts of up to %d characters, all of ASCII and Latin-1 and '
                 'characters from beyond (printable and not)' % (2 if q else 3)))
    J.append(Job('escape-q', 'escape', dict(n=n + 2, abc=[(34, 34), (39, 39), (92, 92), (10, 10), (120, 120)]),
                 weight=30, max_paths=400000,
                 bounds='all texts of up to %d characters from quotes, backslash, newline, x' % (n + 2)))
    n = 6 if q else 8
    J.append(Job('docstring', 'docstring', dict(n=n), weight=40, max_paths=800000,
                 bounds='all texts of up to %d characters from blank, newline, tab, x' % n))
    J.append(Job('middle', 'middle', dict(), weight=10,
                 bounds='texts of 0 to 60 characters (four of them arbitrary), every maximal length '
                        'from 7 to 64'))
    n = 5 if q else 7
    J.append(Job('formatstr', 'formatstr', dict(n=n), weight=10, max_paths=400000,
                 bounds='all texts of up to %d characters from braces and x' % n))
    J.append(Job('identifier', 'identifier', dict(n=3 if q else 5), weight=10,
                 bounds='all texts of up to %d characters, all of Unicode' % (3 if q else 5)))
    J.append(Job('subst', 'subst', dict(n=4 if q else 6), weight=10,
                 bounds='all texts of up to %d characters; patterns with and without empty matches' % (4 if q else 6)))
    J.append(Job('lists', 'lists', dict(n=5 if q else 7), weight=20, max_paths=400000,
                 bounds='all texts of up to %d characters from a, blank, comma, semicolon' % (5 if q else 7)))
    J.append(Job('table', 'table', dict(), weight=20, max_paths=400000,
                 bounds='two entries with keys of up to 3 characters or pairs of names'))
    J.append(Job('paths', 'paths', dict(n=3 if q else 4), weight=60, max_paths=400000,
                 bounds='up to three components of up to two characters, absolute and relative'))
    J.append(Job('circular', 'circular', dict(n=3 if q else 4), weight=10,
                 bounds='up to %d distinct names, every rotation' % (3 if q else 4)))
    return J


# bracket matching -----------------------------------------------------------

def pairs(text, opn, cls):
    """matching brackets in the order of the closing brackets; unmatched ones"""
    stack, good, bad = [], [], []
    i = 0
    while i < len(text):
        if text[i:i + len(opn)] == opn:
            stack.append(i)
            i += len(opn)
        elif text[i:i + len(cls)] == cls:
            if stack:
                good.append((stack.pop(), i))
            else:
                bad.append(i)
            i += len(cls)
        else:
            i += 1
    return good, sorted(bad + stack)


def brackets(cx, n):
    s = cx.str('s', n, [(40, 40), (41, 41), (120, 120)])
    good, bad = pairs(s, '(', ')')
    cx.check(matching_brackets(s, '(', ')') == good, 'pairs', lambda: s)
    un = []
    cx.check(matching_brackets(s, '(', ')', un) == good, 'pairs', lambda: s)
    cx.check(sorted(un) == bad, 'all unmatched brackets', lambda: (s, un, bad))
    cx.observe(good)


def brackets2(cx, n):
    s = cx.str('s', n, [(42, 42), (47, 47), (120, 120)])
    for k in range(len(s) - 2):          # overlapping brackets are not meaningful
        cx.assume(not (s[k:k + 3] == '/*/' or s[k:k + 3] == '*/*'))
    good, bad = pairs(s, '/*', '*/')
    un = []
    cx.check(matching_brackets(s, '/*', '*/', un) == good, 'pairs', lambda: s)
    cx.check(sorted(un) == bad, 'all unmatched brackets', lambda: (s, un, bad))
    cx.observe(good)


def control(s, square):
    """replaces everything that is not a control character of the regular
    expression; None, if a character set is not closed"""
    r, i = '', 0
    while i < len(s):
        if s[i] == '\\':
            r = r + '  '[:len(s[i:i + 2])]
            i += 2
        elif s[i] == '[':
            k = i + 1
            if s[k:k + 1] == '^':
                k += 1
            if s[k:k + 1] == ']':
                k += 1
            while k < len(s) and not s[k] == ']':
                k += 2 if s[k] == '\\' else 1
            if k >= len(s):
                return None
            r = r + ('[' if square else ' ') + ' ' * (k - i - 1) + (']' if square else ' ')
            i = k + 1
        else:
            r = r + s[i]
            i += 1
    return r


def brackets_rx(cx, n):
    s = cx.str('s', n, [(40, 41), (91, 93), (120, 120)])
    t = control(s, True)
    cx.assume(t is not None)
    # a "]" as first character of a set is legal Python, but rejected by other
    # regular expression engines; it has to be escaped in DHParser
    cx.assume('[]' not in s)
    good, _ = pairs(t, '(', ')')
    cx.check(matching_brackets(s, '(', ')', is_regex=True) == good, 'round brackets', lambda: (s, t))
    good, _ = pairs(t, '[', ']')
    cx.check(matching_brackets(s, '[', ']', is_regex=True) == good, 'square brackets', lambda: (s, t))
    cx.observe(good)


# wrapping -------------------------------------------------------------------

def nicely(cx, n, col, tol, abc=((32, 32), (41, 41), (44, 44), (10, 10), (120, 120))):
    s = cx.str('s', n, [tuple(a) for a in abc])
    r = wrap_str_nicely(s, col, tol)
    if '\n' in s or len(s) <= col:
        cx.check(r == s, 'left alone', lambda: (s, r))
        return
    lines = r.split('\n')
    cx.check(''.join(lines) == s, 'nothing lost', lambda: (s, r))
    for k, l in enumerate(lines):
        cx.check(len(l) <= col + 1, 'width', lambda: (s, lines))
        if k < len(lines) - 1:
            cx.check(len(l) >= col - tol, 'not wrapped too early', lambda: (s, lines))
    cx.observe(r)


ESC = {'x': 4, 'u': 6}


def atoms(s, raw, fmt):
    """the indivisible parts of the content of a literal; None, if malformed"""
    r, i = [], 0
    while i < len(s):
        k = 1
        if s[i] == '\\':
            k = 2
            if not raw and s[i + 1:i + 2] == 'x':
                k = 4
            elif not raw and len(s) > i + 1 and '0' <= s[i + 1] and s[i + 1] <= '7':
                while k < 4 and i + k < len(s) and '0' <= s[i + k] and s[i + k] <= '7':
                    k += 1
        if fmt and s[i] == '{':
            if s[i + 1:i + 2] == '{':
                k = 2
            else:
                k = s.find('}', i) - i + 1
                if k < 3 or '\\' in s[i:i + k] or '{' in s[i + 1:i + k] \
                        or '"' in s[i:i + k] or not ('x' in s[i:i + k]):
                    return None
        elif fmt and s[i] == '}':
            if not s[i + 1:i + 2] == '}':
                return None
            k = 2
        if i + k > len(s):
            return None
        if k == 4 and s[i + 1:i + 2] == 'x' and s[i] == '\\':
            for z in s[i + 2:i + 4]:
                if not ('0' <= z and z <= '9'):
                    return None
        if s[i] == '"':
            return None
        r.append(s[i:i + k])
        i += k
    return r


def literal(cx, n, pre):
    abc = [(34, 34), (49, 49), (92, 92), (120, 120)] + ([(123, 123), (125, 125)] if 'f' in pre else [])
    s = cx.str('s', n - ('f' in pre), abc)
    al = atoms(s, 'r' in pre, 'f' in pre)
    cx.assume(al is not None)
    col = cx.int('col', 2, 4)
    off = cx.choice('off', [0, 2])
    r = wrap_str_literal(pre + '"' + s + '"', col, off)
    lines = r.split('\n')
    got = []
    for k, l in enumerate(lines):
        head = (' ' * off if k else '') + pre + '"'
        cx.check(l[:len(head)] == head and l[-1] == '"' and len(l) > len(head), 'a literal on every line',
                 lambda: (s, col, off, lines))
        part = atoms(l[len(head):-1], 'r' in pre, 'f' in pre)
        cx.check(part is not None, 'literals are well-formed', lambda: (s, col, lines))
        if part is None:
            return
        got += part
    cx.check(got == al, 'same content', lambda: (s, col, lines))
    long = [len(a) for a in al if len(a) > col]
    for l in lines:
        # quotation marks belong to the parts, unbreakable sequences may overrun the column
        cx.check(len(l) <= off + len(pre) + 2 + col + sum(long) + 3, 'width', lambda: (s, col, lines))
    cx.observe(r)


def literal_list(cx, n):
    m = cx.choice('m', [1, 2, 3])
    pre = cx.choice('pre', ['', 'r'])
    parts = [cx.str('p%d' % k, n, [(97, 98)]) for k in range(m)]
    arg = list(parts)
    arg[0] = pre + '"' + arg[0]
    arg[-1] = arg[-1] + '"'
    r = wrap_str_literal(arg, 80, 2)
    want = '\n'.join([('  ' if k else '') + pre + '"' + p + '"' for k, p in enumerate(parts)])
    cx.check(r == want, 'parts', lambda: (parts, r))
    cx.observe(r)


# escaping -------------------------------------------------------------------

def unescape(s):
    r, i = '', 0
    while i < len(s):
        if not s[i] == '\\':
            r = r + s[i]
            i += 1
            continue
        c = s[i + 1:i + 2]
        if c == 'x' or c == 'u' or c == 'U':
            k = 2 if c == 'x' else 4 if c == 'u' else 8
            v = 0
            for z in s[i + 2:i + 2 + k]:
                v = v * 16 + (ord(z) - 48 if z <= '9' else ord(z) - 87)
            r = r + chr(v)
            i += 2 + k
            continue
        if c == 'n':
            r = r + '\n'
        elif c == 't':
            r = r + '\t'
        elif c == 'r':
            r = r + '\r'
        elif c == '\\' or c == '"' or c == "'":
            r = r + c
        else:
            return None
        i += 2
    return r


def escape(cx, n, abc):
    s = cx.str('s', n, [tuple(a) for a in abc])
    r = escape_ctrl_chars(s)
    cx.check(unescape(r) == s, 'reversible', lambda: (s, r))
    for c in r:
        cx.check(c >= ' ' and not c == '\x7f', 'no control characters left', lambda: (s, r))
    plain = True
    for c in s:
        if not (c >= ' ' and c <= '~') or c == '\\' or c == "'" or c == '"':
            plain = False
    if plain:
        cx.check(r == s, 'ordinary text is left alone', lambda: (s, r))
    cx.observe(r)


def formatstr(cx, n):
    s = cx.str('s', n, [(120, 120), (123, 123), (125, 125)])
    r = escape_formatstr(s)
    want = ''
    for k in range(len(s)):
        c = s[k]
        want = want + c
        if (c == '{' or c == '}') and not (k > 0 and s[k - 1] == c) and not s[k + 1:k + 2] == c:
            want = want + c
    cx.check(r == want, 'single braces doubled', lambda: (s, r, want))
    cx.observe(r)


def identifier(cx, n):
    s = cx.str('s', n, [tuple(a) for a in ANY])
    r = as_identifier(s, '-')
    cx.check(len(r) == len(s), 'length', lambda: (s, r))
    for k in range(len(s)):
        word = re.match(r'\w', s[k]) is not None
        cx.check(r[k] == (s[k] if word else '-'), 'character by character', lambda: (s, r))
    cx.check(as_identifier(s, '') == ''.join([c for c in s if re.match(r'\w', c)]), 'without replacement',
             lambda: s)
    cx.observe(r)


def subst(cx, n):
    s = cx.str('s', n, [(97, 98), (120, 120)])
    rx = cx.choice('rx', ['a', 'ab', 'a+', 'a|b+', '(?<=x)a', 'x*'])
    r = subf(re.compile(rx), lambda m: '<' + m + '>', s)
    want = re.sub(rx, lambda m: '<' + m.group(0) + '>', s)
    cx.check(r == want, 'substitution', lambda: (rx, s, r, want))
    cx.check(len(_sub_size(re.compile(rx), s)) == len(s), 'same size', lambda: (rx, s))
    cx.observe(r)


# documents ------------------------------------------------------------------

def docstring(cx, n):
    s = cx.str('s', n, [(9, 10), (32, 32), (120, 120)])
    r = normalize_docstring(s)
    lines = []
    cur = ''
    for c in s:
        if c == '\n':
            lines.append(cur)
            cur = ''
        else:
            cur = cur + ('    ' if c == '\t' else c)
    lines.append(cur)
    blank = [l.strip() == '' for l in lines]
    got = r.split('\n')
    if all(blank):
        cx.check(r == '', 'empty', lambda: (s, r))
        return
    a = blank.index(False)
    b = len(blank) - 1 - blank[::-1].index(False)
    body = lines[a:b + 1]
    cx.check(len(got) == len(body), 'lines', lambda: (s, got))
    ind = min([len(l) - len(l.lstrip()) for l, e in zip(lines[1:], blank[1:]) if not e] + [99])
    for k, l in enumerate(body):
        if a == 0 and k == 0:
            cx.check(got[0] == l, 'first line', lambda: (s, got))
        elif l.strip() == '':
            cx.check(got[k].strip() == '' and len(got[k]) <= len(l), 'empty line', lambda: (s, got))
        else:
            cx.check(got[k] == l[ind:], 'indentation', lambda: (s, got, ind))
    cx.observe(r)


def middle(cx):
    length = cx.choice('len', [0, 6, 7, 8, 9, 12, 13, 15, 16, 39, 40, 41, 42, 60])
    m = cx.int('m', 7, 64)
    s = ''.join([chr(33 + k) for k in range(length)])
    if length:
        s = cx.str('a', 1, [(97, 98)], 1) + s[1:-1] + (cx.str('z', 1, [(97, 98)], 1) if length > 1 else '')
    r = abbreviate_middle(s, m)
    if length <= m:
        cx.check(r == s, 'short text is left alone', lambda: (s, m, r))
        return
    cx.check(len(r) <= m, 'not longer than promised', lambda: (s, m, r))
    cx.check(len(r) >= m - 1, 'not shorter than necessary', lambda: (s, m, r))
    i = r.find(' ... ')
    cx.check(i >= 0, 'ellipsis', lambda: (s, m, r))
    cx.check(s.startswith(r[:i]) and s.endswith(r[i + 5:]) and i > 0, 'beginning and end', lambda: (s, m, r))
    cx.observe(r)


# lists, tables, paths ---------------------------------------------------------

def split_on(s, d):
    r, cur = [], ''
    for c in s:
        if c == d:
            r.append(cur)
            cur = ''
        else:
            cur = cur + c
    return r + [cur]


def trim(s):
    while s[:1] == ' ':
        s = s[1:]
    while s[-1:] == ' ':
        s = s[:-1]
    return s


def lists(cx, n):
    s = cx.str('s', n, [(32, 32), (44, 44), (59, 59), (97, 97)])
    r = smart_list(s)
    d = ';' if ';' in s else ',' if ',' in s else ' '
    want = [trim(x) for x in split_on(s if d != ' ' else trim(s), d)]
    cx.check(r == want, 'list', lambda: (s, r, want))
    cx.check(smart_list((s, 1)) == (s, 1) and smart_list([s]) == [s] and smart_list(5) == [5]
             and smart_list(c for c in s) == [c for c in s], 'other types', lambda: s)
    cx.observe(r)


def table(cx):
    def key(p):
        if cx.bool(p + 'pair'):
            return (cx.choice(p + 'x', ['a', 'b']), cx.choice(p + 'y', ['c', 'a b', 'a']))
        return cx.str(p + 's', 3, [(44, 44), (97, 98)])
    k1, k2 = key('k'), key('l')
    cx.assume(not (k1 == k2))
    flat = []
    for k, v in ((k1, 1), (k2, 2)):
        names = k if isinstance(k, tuple) else [trim(x) for x in split_on(k, ',')]
        flat += [(x, v) for x in names]
    double = False
    for i in range(len(flat)):
        for j in range(i):
            if flat[i][0] == flat[j][0]:
                double = True
    try:
        r = expand_table({k1: 1, k2: 2})
    except KeyError:
        cx.check(double, 'no duplicates, no error', lambda: (k1, k2))
        return
    cx.check(not double, 'duplicates are rejected', lambda: (k1, k2, r))
    cx.check(len(r) == len(flat), 'all keys', lambda: (k1, k2, r))
    for x, v in flat:
        cx.check(r[x] == v, 'values', lambda: (k1, k2, r))
    cx.observe(len(r))


def paths(cx, n):
    def comps(p, m):
        return [cx.str('%s%d' % (p, k), 2 if n > 3 else 1 + (k == 0), [(97, 98)], 1)
                for k in range(cx.choice('n' + p, list(range(m + 1))))]
    A, B = comps('a', n - 1), comps('b', n - 1)
    common = cx.choice('c', ['', '/z', '/z/ab'])
    root = cx.bool('root')
    a = common + ''.join(['/' + x for x in A])
    b = common + ''.join(['/' + x for x in B])
    if a == '':
        a = '/'
    if b == '':
        b = '/'
    r = relative_path(a, b)
    # following the path must lead from a to b
    cur = [x for x in split_on(a, '/') if not x == '']
    for step in split_on(r, '/'):
        if step == '..':
            cx.check(len(cur) > 0, 'does not leave the root', lambda: (a, b, r))
            cur = cur[:-1]
        elif not (step == '.' or step == ''):
            cur = cur + [step]
    want = [x for x in split_on(b, '/') if not x == '']
    cx.check(cur == want, 'leads to the target', lambda: (a, b, r))
    p = ('/' if root else '') + '/'.join(A)
    if p != '':
        got = split_path(p)
        cx.check(os.path.join(*got) == p, 'components make up the path', lambda: (p, got))
        cx.check(list(got) == (['/'] if root else []) + A or (A == [] and list(got) == ['/', '']),
                 'one component each', lambda: (p, got))
    cx.observe(r)


def circular(cx, n):
    m = cx.choice('m', list(range(1, n + 1)))
    t = tuple([cx.str('s%d' % k, 1, [(97, 99)], 1) for k in range(m)])
    for i in range(m):
        for j in range(i):
            cx.assume(not (t[i] == t[j]))
    k = cx.choice('k', list(range(m)))
    a, b = normalize_circular_path(t), normalize_circular_path(t[k:] + t[:k])
    cx.check(a == b, 'independent of the starting point', lambda: (t, k))
    for x in t:
        cx.check(a[0] <= x, 'starts with the smallest', lambda: (t, a))
    i = t.index(a[0])
    cx.check(a == t[i:] + t[:i], 'rotation', lambda: (t, a))
    cx.observe(a)
