"""P12: trees survive serialization as S-expression or SXML."""
from hutil import Job
from treeutil import build, shapes_upto, same, unbuild, nodes_of
from DHParser.nodetree import Node, RootNode, parse_sxpr, parse_sxml, flatten_sxpr

ASSUMPTIONS = ['node names consist of letters, digits, "." and "-", or of a colon followed by such a name; '
               'in "a:b" the part after the colon is a historic class name that is dropped on purpose',
               'no control characters other than tab and linefeed, which are written as \\x.. for display',
               'the attribute names "err" (error messages) and, in SXML, "pos" are reserved',
               'attribute values are texts; no reflowing to a column']

CH = [(34, 34), (39, 39), (40, 41), (32, 32), (10, 10), (9, 9), (96, 96), (92, 92), (64, 64), (97, 97), (233, 233)]
QUOTES = [(34, 34), (39, 39), (97, 97)]
TEXT = [(34, 34), (39, 39), (41, 41), (32, 32), (10, 10), (97, 97)]
NAME = [(45, 46), (48, 57), (65, 90), (95, 95), (97, 122), (228, 228)]


def jobs(tier):
    q = tier == 'quick'
    J = []
    for sx in (0, 1, 2):
        n = (4 if sx == 0 else 3) if q else 5
        J.append(Job('content-%d' % sx, 'content', dict(sx=sx, n=n), weight=20, max_paths=400000,
                     bounds='a leaf with up to %d characters from quotes, brackets, blank, tab, linefeed, `, '
                     'backslash, @, letters; 10 layouts' % n))
    n = 7 if q else 10
    J.append(Job('quotes', 'content', dict(sx=0, n=n, alph='q'), weight=20, max_paths=400000,
                 bounds='a leaf with up to %d characters from both quotation marks and a letter' % n))
    for sx in (0, 1):
        n = (4 if sx == 0 else 3) if q else 5
        J.append(Job('attr-%d' % sx, 'attr', dict(sx=sx, n=n), weight=20, max_paths=400000,
                     bounds='a leaf with one attribute with a value of up to %d characters, content '
                     'empty, a quotation mark or a bracket' % n))
        J.append(Job('attrs-%d' % sx, 'attr', dict(sx=sx, n=1, k=2), weight=20, max_paths=400000,
                     bounds='two attributes with values of up to 1 character'))
        n = 3 if q else 4
        J.append(Job('tree-%d' % sx, 'tree', dict(sx=sx, n=n), weight=30, max_paths=400000,
                     bounds='all trees with up to %d nodes, leaves with up to 1 character, '
                     'up to one attribute in the tree; 6 layouts' % n))
        J.append(Job('pos-%d' % sx, 'pos', dict(sx=sx), weight=10, max_paths=400000,
                     bounds='trees with up to 3 nodes, positions 0..12, source text given or not'))
    J.append(Job('names', 'names', dict(n=2 if q else 3), weight=10,
                 bounds='node and attribute names of up to %d characters' % (2 if q else 3)))
    J.append(Job('flatten', 'flatten', dict(n=4), weight=10, max_paths=400000,
                 bounds='flatten_sxpr with any threshold -1..30 on serialized trees'))
    return J


def hopeless(s):
    """text for which there are no delimiters in S-expressions"""
    if '"' not in s or "'" not in s:
        return False
    return ('"""' in s or s[-1] == '"') and ("'''" in s or s[-1] == "'")


def roundtrip(cx, T, sx, lay, src=None, pos=None):
    nd = build(T)
    if pos is not None:
        nd.with_pos(pos)
    ind, compact, thr = lay
    if sx:
        s = nd.as_sxml(src, indentation=ind, compact=compact, flatten_threshold=thr, normal_form=sx)
    else:
        s = nd.as_sxpr(src, indentation=ind, compact=compact, flatten_threshold=thr)
    try:
        t = (parse_sxml if sx else parse_sxpr)(s)
    except Exception as e:
        t = e
    texts = [ln for n in nodes_of(nd) for ln in n[-1].content.split('\n') if not n[-1].children]
    for n in nodes_of(nd):
        if n[-1].has_attr():
            texts += list(n[-1].attr.values())
    lost = any([hopeless(x) for x in texts])
    if lost:
        cx.known('P12-both-triple-quotes', True)
        return s, None
    cx.check(isinstance(t, RootNode), 'can be read', lambda: (T, s, t))
    cx.check(same(unbuild(t), T), 'same tree', lambda: (T, s, unbuild(t)))
    cx.check(t.equals(nd), 'equals', lambda: (T, s))
    return s, t


LAYOUTS = [(i, c, t) for i in (2, 0) for c in (True, False) for t in (0, -1)] + [(2, True, 12), (3, False, 92)]


def content(cx, sx, n, alph=None):
    T = ['a', cx.str('s', n, QUOTES if alph else CH), {}]
    lay = cx.choice('layout', LAYOUTS if not alph else LAYOUTS[:2])
    s, t = roundtrip(cx, T, sx, lay)
    if lay[2] == -1 and t is not None:
        cx.check('\n' not in s, 'one line', s)
    cx.observe(s)


def attr(cx, sx, n, k=1):
    A = {}
    for i in range(k):
        A['kx'[i]] = cx.str('v%d' % i, n, CH if k == 1 else TEXT)
    T = ['a', cx.choice('s', ['', "'", ')"']), A]
    s, t = roundtrip(cx, T, sx, cx.choice('layout', LAYOUTS[:2] if k == 1 else LAYOUTS[:1]))
    cx.observe(s)


def mktree(cx, n, maxlen=1, attrs=True, names=('a', ':T')):
    sh = cx.choice('shape', shapes_upto(n))
    cnt = [0]
    size = [0]

    def cnt_nodes(x):
        size[0] += 1
        for c in x:
            cnt_nodes(c)
    cnt_nodes(sh)
    at = cx.choice('attr', [-1] + list(range(size[0]))) if attrs else -1

    def rec(x):
        i = cnt[0]
        cnt[0] += 1
        A = {'k': cx.str('v', 1, TEXT)} if at == i else {}
        nm = names[i % len(names)]
        if x:
            return [nm, [rec(c) for c in x], A]
        return [nm, cx.str('t%d' % i, maxlen, TEXT), A]
    return rec(sh)


def tree(cx, sx, n):
    T = mktree(cx, n)
    s, t = roundtrip(cx, T, sx, cx.choice('layout', LAYOUTS[:4] + LAYOUTS[-2:]))
    cx.observe(s)


def pos(cx, sx):
    sh = cx.choice('shape', shapes_upto(3))
    cnt = [0]

    def rec(x):
        cnt[0] += 1
        if x:
            return ['n', [rec(c) for c in x], {}]
        return ['n', cx.choice('t%d' % cnt[0], ['', 'x', 'x\ny']), {'k': '"'} if cnt[0] == 2 else {}]
    T = rec(sh)
    p = cx.int('pos', 0, 12)
    src = cx.choice('src', ['', 'text\n with\nlinebreaks', None])
    nd = build(T).with_pos(p)
    s, t = roundtrip(cx, T, sx, cx.choice('layout', LAYOUTS[:2]), src, p)
    A = [x[-1]._pos for x in nodes_of(nd)]
    B = [x[-1]._pos for x in nodes_of(t)]
    cx.check(B == (A if src is not None else [-1] * len(A)), 'positions', lambda: (s, A, B))
    cx.observe(s)


def names(cx, n):
    nm = cx.str('name', n, NAME, minlen=1)
    if cx.bool('anonymous'):
        nm = ':' + nm
    ch = cx.choice('content', ['', 'x', None])
    T = [nm, ch if ch is not None else [[nm, 'y', {}]], {}]
    sx = cx.choice('sx', [0, 1, 2])
    if cx.bool('attribute'):
        an = cx.str('attr', n + 1, NAME, minlen=1)
        cx.assume(an != 'err' and an != 'pos')
        T[2][an] = 'v'
    s, t = roundtrip(cx, T, sx, LAYOUTS[cx.choice('layout', [0, 1])])
    cx.observe(s)


def flatten(cx, n):
    T = mktree(cx, n, attrs=False)
    nd = build(T)
    s = nd.as_sxpr(flatten_threshold=0)
    thr = cx.int('threshold', -1, 30)
    f = flatten_sxpr(s, thr)
    one = flatten_sxpr(s, -1)
    cx.check('\n' not in one, 'one line', lambda: (s, one))
    if thr < 0:
        cx.check(f == one, 'always flattened', lambda: (s, f, thr))
    elif thr == 0:
        cx.check(f == s, 'never flattened', lambda: (s, f, thr))
    else:
        cx.check(f == (one if len(one) <= thr else s), 'flattened if short enough', lambda: (s, f, thr))
    cx.check(flatten_sxpr(one, -1) == one, 'idempotent', lambda: (s, one))
    cx.check(same(unbuild(parse_sxpr(one)), T), 'same tree', lambda: (s, one))
    cx.observe(one)
