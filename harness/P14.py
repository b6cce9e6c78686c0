"""P14: XML-serialization is well-formed and can be read back."""
from hutil import Job
from treeutil import build, shapes_upto, same, unbuild, nodes_of
from DHParser.nodetree import Node, RootNode, parse_xml
from DHParser.configuration import set_config_value, get_config_value

ASSUMPTIONS = ['texts contain no control characters apart from tab, linefeed and carriage return; '
               'attribute values neither contain these',
               'texts and attribute values are XML-text: entities like "&lt;" in it remain as they are, and '
               'parse_xml() does not resolve entities',
               'names ending with "__" stand for anonymous nodes; names do not begin with "_" or "ANONYMOUS_"',
               'round trip: strings inside mixed content are not empty, do not touch each other, '
               'and are not just whitespace with a linefeed; texts with linefeeds only inline; no comments, '
               'processing instructions, CDATA']

CH = [(34, 34), (38, 39), (59, 60), (62, 62), (97, 97), (35, 35), (49, 49), (120, 120), (45, 45), (32, 32)]
MARKUP = [(38, 38), (59, 60), (62, 62), (35, 35), (49, 49), (97, 97), (120, 120), (91, 91), (93, 93)]
TEXT = [(38, 38), (60, 60), (62, 62), (97, 97), (32, 32), (10, 10), (34, 34), (47, 47), (61, 61)]
NAMESTART = [(58, 58), (65, 90), (95, 95), (97, 122), (0xC0, 0xD6), (0x4e00, 0x4e00)]


def jobs(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    J = [Job('text', 'text', dict(n=n), weight=20, max_paths=400000,
             bounds='a leaf with up to %d characters from & ; < > # 1 a x [ ]' % n),
         Job('space', 'text', dict(n=3 if q else 5, alph='t'), weight=20, max_paths=400000,
             bounds='a leaf with up to %d characters from & < > blank, linefeed, quote, letter' % (3 if q else 5)),
         Job('unicode', 'unicode', dict(), weight=10, max_paths=400000,
             bounds='a text and an attribute value of 1 arbitrary character, or & c ;'),
         Job('return', 'creturn', dict(n=2 if q else 3), weight=10, bounds='texts of up to %d characters from '
             'carriage return, ampersand, letter' % (2 if q else 3))]
    for h in ('fix', 'fail', 'lxml'):
        m = (4 if h == 'fix' else 3) if q else 5
        J.append(Job('attr-' + h, 'attr', dict(h=h, n=m), weight=20, max_paths=400000,
                     bounds='xml_attribute_error_handling "%s"; an attribute value of up to %d characters '
                     'from & ; < > # 1 a x - blank and both quotation marks' % (h, m)))
    J += [Job('attrs', 'attrs', dict(n=1 if q else 2), weight=20, max_paths=400000,
              bounds='two attributes with values of up to %d characters, text of up to 1 character'
              % (1 if q else 2)),
          Job('tree', 'tree', dict(n=3 if q else 4), weight=30, max_paths=400000,
              bounds='all trees with up to %d nodes without mixed content, leaves with up to 1 character, '
              'one attribute; 5 layouts' % (3 if q else 4)),
          Job('mixed', 'mixed', dict(n=4, k=1), weight=30, max_paths=400000,
              bounds='all trees with up to 4 nodes with any leaves as strings in mixed content, '
              'up to 1 character each; inlined or not'),
          Job('names', 'names', dict(n=2 if q else 3), weight=10, max_paths=400000,
              bounds='tag and attribute names of up to %d characters' % (2 if q else 3)),
          Job('pos', 'pos', dict(), weight=10, max_paths=400000,
              bounds='trees with up to 3 nodes, positions 0..1000'),
          Job('empty', 'empty', dict(n=3 if q else 4), weight=10, max_paths=400000,
              bounds='all trees with up to %d nodes, leaves empty or not, any set of empty tags' % (3 if q else 4))]
    return J


# ---------------------------------------------------------------- an independent XML reader
ENT = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}


class IllFormed(Exception):
    pass


def start_char(c):
    return c in ':_' or 'A' <= c <= 'Z' or 'a' <= c <= 'z' or '\xC0' <= c <= '\xD6' or '\xD8' <= c <= '\xF6' \
        or '\xF8' <= c <= '\u02FF' or '\u0370' <= c <= '\u037D' or '\u037F' <= c <= '\u1FFF' \
        or '\u200C' <= c <= '\u200D' or '\u2070' <= c <= '\u218F' or '\u2C00' <= c <= '\u2FEF' \
        or '\u3001' <= c <= '\uD7FF' or '\uF900' <= c <= '\uFDCF' or '\uFDF0' <= c <= '\uFFFD' \
        or '\U00010000' <= c <= '\U000EFFFF'


def name_char(c):
    return start_char(c) or c in '-.' or '0' <= c <= '9' or c == '\xB7' \
        or '\u0300' <= c <= '\u036F' or '\u203F' <= c <= '\u2040'


def reference(s, i):
    """reads the reference that starts at s[i] == '&'. Returns its meaning and its end, or None"""
    k = i + 1
    n = len(s)
    if k < n and s[k] == '#':
        k += 1
        hexa = k < n and s[k] == 'x'
        if hexa:
            k += 1
        a, v = k, 0
        while k < n and ('0' <= s[k] <= '9' or hexa and ('a' <= s[k] <= 'f' or 'A' <= s[k] <= 'F')):
            k += 1
        if k == a or k >= n or s[k] != ';':
            return None
        return ('ref', s[i:k + 1]), k + 1
    if k >= n or not start_char(s[k]):
        return None
    while k < n and name_char(s[k]):
        k += 1
    if k >= n or s[k] != ';':
        return None
    nm = s[i + 1:k]
    for e in ENT:
        if nm == e:
            return ENT[e], k + 1
    return ('ref', s[i:k + 1]), k + 1


def meaning(s, strict):
    """list of characters and references; strict: '&' and '<' alone are errors"""
    r = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '&':
            x = reference(s, i)
            if x is not None:
                r.append(x[0])
                i = x[1]
                continue
            if strict:
                raise IllFormed('&')
        if c == '<' and strict:
            raise IllFormed('<')
        r.append(c)
        i += 1
    if strict and ']]>' in s:
        raise IllFormed(']]>')
    return r


def same_meaning(A, B):
    if len(A) != len(B):
        return False
    for a, b in zip(A, B):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if isinstance(a, tuple):
            if a[1] != b[1]:
                return False
        elif a != b:
            return False
    return True


def read_name(s, i):
    k = i
    if k >= len(s) or not start_char(s[k]):
        raise IllFormed('name expected at %i' % i)
    while k < len(s) and name_char(s[k]):
        k += 1
    return s[i:k], k


def read_element(s, i):
    """(name, attributes, items), end;  items are raw texts or elements"""
    if s[i:i + 1] != '<':
        raise IllFormed('element expected')
    name, i = read_name(s, i + 1)
    attrs = []
    while True:
        b = i
        while i < len(s) and s[i] in ' \t\n':
            i += 1
        if s[i:i + 2] == '/>':
            return (name, attrs, []), i + 2
        if s[i:i + 1] == '>':
            i += 1
            break
        if b == i:
            raise IllFormed('blank expected')
        an, i = read_name(s, i)
        if s[i:i + 1] != '=':
            raise IllFormed('= expected')
        q = s[i + 1:i + 2]
        if q != '"' and q != "'":
            raise IllFormed('quote expected')
        k = s.find(q, i + 2)
        if k < 0:
            raise IllFormed('end of value missing')
        for a, _ in attrs:
            if a == an:
                raise IllFormed('attribute twice')
        v = s[i + 2:k]
        meaning(v + '', True) if ']]>' not in v else None
        attrs.append((an, v))
        i = k + 1
    items = []
    while True:
        k = s.find('<', i)
        if k < 0:
            raise IllFormed('closing tag missing')
        if k > i:
            t = s[i:k]
            meaning(t, True)
            items.append(t)
        i = k
        if s[i:i + 2] == '</':
            nm, i = read_name(s, i + 2)
            if nm != name:
                raise IllFormed('wrong closing tag')
            if s[i:i + 1] != '>':
                raise IllFormed('closing tag')
            return (name, attrs, items), i + 1
        e, i = read_element(s, i)
        items.append(e)


def read_doc(s):
    e, i = read_element(s, 0)
    if i != len(s):
        raise IllFormed('superfluous text')
    return e


def check_wf(cx, s, info):
    try:
        return read_doc(s)
    except IllFormed as e:
        err = str(e)
    cx.fail('well-formed', lambda: (err, s, info()))


def escaped(s):
    """s with every special character replaced by an entity, unless part of an entity"""
    r = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c == '&':
            x = reference(s, i)
            if x is not None:
                r = r + s[i:x[1]]
                i = x[1]
                continue
            c = '&amp;'
        elif c == '<':
            c = '&lt;'
        elif c == '>':
            c = '&gt;'
        r = r + c
        i += 1
    return r


def squeeze(s):
    return ''.join([c for c in s if c not in ' \n\t'])


# ---------------------------------------------------------------- jobs

def text(cx, n, alph=None):
    s = cx.str('s', n, TEXT if alph else MARKUP)
    T = ['a', s, {}]
    nd = build(T)
    inl = cx.bool('inline')
    xml = nd.as_xml(inline_tags={'a'} if inl else set())
    info = lambda: (T, inl, xml)
    e = check_wf(cx, xml, info)
    txt = ''.join(e[2])
    exact = inl or '\n' not in s
    cx.check(e[0] == 'a' and not e[1] and all([isinstance(x, str) for x in e[2]]), 'the element', info)
    if exact:
        cx.check(same_meaning(meaning(txt, True), meaning(s, False)), 'content', info)
        t = parse_xml(xml)
        got = t.content
        want = escaped(s)
        if '\n' in s and not s.strip():
            want = ''
        cx.check(t.name == 'a' and got == want, 'read back', lambda: (info(), got))
        cx.check(t.as_xml(inline_tags={'a'} if inl else set()) == xml or not want, 'stable', info)
    else:
        cx.check(same_meaning(meaning(squeeze(txt), True), meaning(squeeze(s), False)), 'content', info)
    cx.observe(xml)


def unicode(cx):
    c = cx.str('c', 1, [(32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)], minlen=1)
    s = cx.choice('form', [c, '&' + c + ';', '&a' + c + ';', '&#' + c + ';', '&#x' + c + ';'])
    set_config_value('xml_attribute_error_handling', 'fix')
    if cx.bool('attribute'):
        nd = Node('a', '').with_attr({'k': s})
        xml = nd.as_xml()
        e = check_wf(cx, xml, lambda: xml)
        cx.check(len(e[1]) == 1 and same_meaning(meaning(e[1][0][1], True), meaning(s, False)), 'value',
                 lambda: (s, xml))
        t = parse_xml(xml)
        cx.check(t.as_xml() == xml, 'stable', lambda: (s, xml))
    else:
        assumed_space = c not in '\x7f'
        nd = Node('a', s)
        xml = nd.as_xml()
        e = check_wf(cx, xml, lambda: xml)
        cx.check(len(e[2]) == 1 and same_meaning(meaning(e[2][0], True), meaning(s, False)), 'content',
                 lambda: (s, xml))
        t = parse_xml(xml)
        cx.check(t.as_xml() == xml, 'stable', lambda: (s, xml))
    cx.observe(len(xml))


def creturn(cx, n):
    s = cx.str('s', n, [(13, 13), (38, 38), (97, 97)], minlen=1)
    xml = Node('a', s).as_xml(inline_tags={'a'})
    e = check_wf(cx, xml, lambda: xml)
    cx.check('\r' not in xml, 'carriage return written as character reference', lambda: (s, xml))
    want = s.replace('&', '&amp;').replace('\r', '&#x0d;')
    cx.check(''.join(e[2]) == want, 'content', lambda: (s, xml))
    cx.observe(xml)


def valid_value(s):
    """may s be written as attribute value without changing it?"""
    if '<' in s or '"' in s and "'" in s:
        return False
    i = 0
    while i < len(s):
        if s[i] == '&' and reference(s, i) is None:
            return False
        i += 1
    return True


def attr(cx, h, n):
    v = cx.str('v', n, CH)
    set_config_value('xml_attribute_error_handling', h)
    nd = Node('a', cx.choice('content', ['', 'x'])).with_attr({'k': v, 'l': '>'})
    try:
        xml = nd.as_xml()
    except ValueError:
        cx.check(h == 'fail', 'no error', v)
        cx.check(not valid_value(v), 'only invalid values are refused', v)
        cx.observe('refused')
        return
    if h == 'fail':
        cx.check(valid_value(v), 'invalid values are refused', v)
    info = lambda: (v, xml)
    e = check_wf(cx, xml, info)
    cx.check(len(e[1]) == 2 and e[1][0][0] == 'k', 'the attributes', info)
    w = e[1][0][1]
    cx.check(same_meaning(meaning(w, True), meaning(v, False)), 'value', info)
    t = parse_xml(xml)
    cx.check(t.name == 'a' and t.content == nd.content and list(t.attr) == ['k', 'l']
             and t.attr['k'] == w and t.attr['l'] == '>', 'read back', lambda: (info(), dict(t.attr)))
    if valid_value(v):
        cx.check(w == v, 'valid values are not changed', info)
    cx.check(t.as_xml() == xml, 'stable', info)
    cx.observe(xml)


def attrs(cx, n):
    set_config_value('xml_attribute_error_handling', 'fix')
    al = [(38, 38), (60, 60), (62, 62), (34, 34), (39, 39), (47, 47), (61, 61), (97, 97)]
    A = {'k': cx.str('v', n, al), 'l:m': cx.str('w', n, al)}
    nd = Node('a', cx.str('s', 1, al)).with_attr(A)
    if cx.bool('nested'):
        nd = Node('b', (nd, Node('c', '')))
    xml = nd.as_xml()
    info = lambda: (A, xml)
    check_wf(cx, xml, info)
    t = parse_xml(xml)
    cx.check(t.as_xml() == xml, 'stable', info)
    u = t.pick('a', include_root=True)
    src = nd.pick('a', include_root=True)
    cx.check(u.content == escaped(src.content), 'content', info)
    cx.check(len(u.attr) == 2, 'all attributes', lambda: (info(), dict(u.attr)))
    for k in A:
        cx.check(same_meaning(meaning(u.attr[k], True), meaning(A[k], False)), 'values', info)
    cx.observe(xml)


LAYOUTS = [dict(), dict(indentation=0), dict(inline_tags={'a'}), dict(string_tags=set()),
           dict(string_tags=set(), inline_tags={'b'}, indentation=4)]


def tree(cx, n):
    sh = cx.choice('shape', shapes_upto(n))
    i = [0]

    def rec(x):
        k = i[0]
        i[0] += 1
        A = {}
        if k == 1 and cx.bool('attr'):
            A['k'] = cx.choice('v', ['', "'", '"', 'x > y'])
        nm = ['a', 'b', ':c', 'b'][k]
        if x:
            return [nm, [rec(c) for c in x], A]
        return [nm, cx.str('t%d' % k, 1, [(32, 32), (47, 47), (61, 62), (97, 97)]), A]
    T = rec(sh)
    set_config_value('xml_attribute_error_handling', 'fix')
    nd = build(T)
    lay = cx.choice('layout', LAYOUTS)
    xml = nd.as_xml(**lay)
    info = lambda: (T, sorted(lay.items(), key=str), xml)
    check_wf(cx, xml, info)
    t = parse_xml(xml)

    def esc(T):
        return [T[0], [esc(c) for c in T[1]] if isinstance(T[1], list) else escaped(T[1]), T[2]]
    cx.check(same(unbuild(t), esc(T)), 'same tree', lambda: (info(), unbuild(t)))
    cx.observe(xml)


def mixed(cx, n, k):
    """leaves named :Text are written as plain text"""
    sh = cx.choice('shape', shapes_upto(n))
    i = [0]

    def rec(x, text_ok):
        j = i[0]
        i[0] += 1
        if x:
            r, prev = [], False
            for c in x:
                y = rec(c, not prev and len(x) > 1)
                prev = y[0] == ':Text'
                r.append(y)
            return ['abcd'[j], r, {}]
        if text_ok and cx.bool('text%d' % j):
            return [':Text', cx.str('t%d' % j, k, [(32, 32), (38, 38), (60, 60), (97, 97)], minlen=1), {}]
        return ['abcd'[j], cx.choice('t%d' % j, ['', 'x']), {}]
    T = rec(sh, False)
    nd = build(T)
    inl = cx.bool('inline')
    xml = nd.as_xml(inline_tags={'a'} if inl else set(), string_tags={':Text'})
    info = lambda: (T, xml)
    e = check_wf(cx, xml, info)

    def esc(T):
        return [T[0], [esc(c) for c in T[1]] if isinstance(T[1], list) else escaped(T[1]), T[2]]
    want = esc(T)
    t = parse_xml(xml)
    got = unbuild(t)
    if inl:
        cx.check(same(got, want), 'same tree', lambda: (info(), got))
    else:                 # whitespace around strings in mixed content is up to the layout
        def strip(T):
            if not isinstance(T[1], list):
                return [T[0], T[1].strip() if T[0] == ':Text' else T[1], T[2]]
            r = [strip(c) for c in T[1]]
            r = [c for c in r if not (c[0] == ':Text' and c[1] == '')]
            if len(r) == 1 and r[0][0] == ':Text':
                return [T[0], r[0][1], T[2]]
            return [T[0], r or '', T[2]]
        cx.check(same(strip(got), strip(want)), 'same tree apart from whitespace', lambda: (info(), got))
    cx.observe(xml)


def names(cx, n):
    st = cx.str('start', 1, [c for c in NAMESTART if c[0] not in (58, 95)], minlen=1)
    nm = st + cx.str('rest', n - 1, NAMESTART[1:] + [(45, 46), (48, 57)])
    cx.assume(not nm.endswith('__'))
    anon = cx.bool('anonymous')
    if anon:
        nm = ':' + nm
    ch = cx.choice('content', ['', 'x', None])
    T = [nm, ch if ch is not None else [[nm, 'y', {}]], {}]
    if not anon and ch == 'x' and cx.bool('attribute'):
        a = cx.str('attr', 1, NAMESTART[1:], minlen=1) + cx.str('arest', 1, [(45, 46), (48, 58)])
        T[2][a] = 'v'
    nd = build(T)
    xml = nd.as_xml(string_tags=set())
    check_wf(cx, xml, lambda: (T, xml))
    t = parse_xml(xml)
    cx.check(same(unbuild(t), T), 'same tree', lambda: (T, xml, unbuild(t)))
    cx.observe(xml)


def pos(cx):
    sh = cx.choice('shape', shapes_upto(3))

    def rec(x):
        return ['a', [rec(c) for c in x] if x else 'x', {}]
    T = rec(sh)
    nd = build(T)
    for i, p in enumerate(nodes_of(nd)):
        p[-1]._pos = cx.int('p%d' % i, -1 if i else 0, 1000)
    src = cx.choice('src', ['', None])
    xml = nd.as_xml(src)
    t = parse_xml(xml)
    A = [p[-1]._pos for p in nodes_of(nd)]
    B = [p[-1]._pos for p in nodes_of(t)]
    cx.check(same(unbuild(t), T), 'same tree', lambda: (T, xml))
    cx.check(B == (A if src == '' else [-1] * len(A)), 'positions', lambda: (xml, A, B))
    cx.observe(xml)


def empty(cx, n):
    """empty elements: written as <a/> if all of this name are empty, or as requested"""
    sh = cx.choice('shape', shapes_upto(n))
    i = [0]

    def rec(x):
        k = i[0]
        i[0] += 1
        nm = cx.choice('n%d' % k, ['a', 'b'])
        return [nm, [rec(c) for c in x] if x else cx.choice('t%d' % k, ['', 'x']), {}]
    T = rec(sh)
    nd = build(T)
    L = [p[-1] for p in nodes_of(nd)]
    full = set([x.name for x in L if x.result])
    void = set([x.name for x in L if not x.result])
    how = cx.choice('empty_tags', [None, set(), {'a'}, {'a', 'b'}])
    strict = cx.bool('strict')
    kw = {} if how is None else dict(empty_tags=how)
    eff = void - full if how is None else how
    cx.check(nd.collect_empty_tags() == void - full, 'always empty', T)
    try:
        xml = nd.as_xml(strict_mode=strict, **kw)
    except ValueError:
        cx.check(strict and any([x in full for x in eff]), 'refused', T)
        cx.observe('refused')
        return
    cx.check(not strict or not any([x in full for x in eff]), 'not refused', lambda: (T, xml))
    check_wf(cx, xml, lambda: (T, xml))
    for tag in ('a', 'b'):
        cx.check(xml.count('<%s/>' % tag) == len([x for x in L if x.name == tag and not x.result and tag in eff]),
                 'empty elements', lambda: (T, xml))
    t = parse_xml(xml, strict_mode=False)
    cx.check(same(unbuild(t), T), 'same tree', lambda: (T, xml))
    cx.observe(xml)
