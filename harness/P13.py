"""P13: trees survive serialization as JSON."""
import json
from hutil import Job
from treeutil import build, shapes_upto, same, unbuild, nodes_of
from DHParser.nodetree import Node, RootNode, parse_json

ASSUMPTIONS = ['in the dictionary flavour, the names "pos__", "attributes__" and "content__" are reserved; '
               'names of nodes are not symbolic when they serve as keys of JSON objects']

CH = [(34, 34), (39, 39), (92, 92), (0, 0), (9, 10), (31, 32), (47, 47), (91, 91), (97, 97), (127, 127), (233, 233),
      (0x1F600, 0x1F600)]
TEXT = [(34, 34), (92, 92), (10, 10), (97, 97), (233, 233)]
NAMES = ['a', ':T', 'x__', '__', '"']


def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    J = []
    for d in (0, 1):
        fl = 'dictionary flavour' if d else 'list flavour'
        J += [Job('text-%d' % d, 'text', dict(d=d, n=2 if q else 3), weight=20, max_paths=400000,
                  bounds=fl + '; a leaf with up to %d characters (quotes, backslash, control characters, '
                  'non-ASCII), attribute value of up to 1 character; 6 layouts' % (2 if q else 3)),
              Job('tree-%d' % d, 'tree', dict(d=d, n=3 if q else 4), weight=30, max_paths=400000,
                  bounds=fl + '; all trees with up to %d nodes, names out of 2, leaves with 0..1 '
                  'characters, up to one attribute' % (3 if q else 4)),
              Job('names-%d' % d, 'names', dict(d=d, n=3), weight=30, max_paths=400000,
                  bounds=fl + '; all trees with up to 3 nodes, names out of %d' % len(NAMES)),
              Job('pos-%d' % d, 'pos', dict(d=d, n=n), weight=20, max_paths=400000,
                  bounds=fl + '; all trees with up to %d nodes, any positions -1..100 of each node' % n)]
    J.append(Job('names-sym', 'names_sym', dict(n=2 if q else 3), weight=10, max_paths=400000,
                 bounds='list flavour; node and attribute names of up to %d characters' % (2 if q else 3)))
    return J


def roundtrip(cx, T, d, layout=None, include_pos=True, prep=lambda nd: nd):
    """layout None: without writing JSON-text"""
    nd = prep(build(T))
    if layout is None:
        s = nd.to_json_obj(as_dict=bool(d), include_pos=include_pos)
        t = Node.from_json_obj(s)
    else:
        indent, asc = layout
        s = nd.as_json(indent=indent, ensure_ascii=asc, as_dict=bool(d), include_pos=include_pos)
        t = parse_json(s)
        cx.check(isinstance(t, RootNode), 'root node')
        if not indent or indent < 0:
            cx.check('\n' not in s, 'one line', s)
        if asc:
            for c in s:
                cx.check(c <= '\x7f', 'ASCII only', s)
    cx.check(same(unbuild(t), T), 'same tree', lambda: (T, s, unbuild(t)))
    cx.check(t.equals(nd), 'equals', lambda: (T, s))
    cx.check(same(unbuild(nd), T), 'source unchanged', lambda: (T, s))
    if layout is None and nd.has_attr():
        v = dict(nd.attr)
        t.attr['new'] = 'x'
        cx.check(dict(nd.attr) == v, 'independent', lambda: (T, s))
    return nd, t, s


LAYOUTS = [None, (2, False), (0, False), (None, True), (4, True), (-1, False)]


def text(cx, d, n):
    T = ['a', cx.str('s', n, CH), {}]
    if cx.bool('attr'):
        T[2]['k'] = cx.str('v', 1, CH)
    nd, t, s = roundtrip(cx, T, d, cx.choice('layout', LAYOUTS))
    cx.observe(s)


def mk(cx, n, names, txt, attrs=True):
    sh = cx.choice('shape', shapes_upto(n))
    num = [0]

    def cnt(x):
        num[0] += 1
        for c in x:
            cnt(c)
    cnt(sh)
    at = cx.choice('attr', [-1] + list(range(num[0]))) if attrs else -1
    i = [0]

    def rec(x):
        k = i[0]
        i[0] += 1
        nm = cx.choice('n%d' % k, names)
        A = {'k': cx.str('v', 1, TEXT[:2]), 'l': ''} if k == at else {}
        if x:
            return [nm, [rec(c) for c in x], A]
        return [nm, txt(k), A]
    return rec(sh)


def tree(cx, d, n):
    T = mk(cx, n, ['a', 'b'], lambda k: cx.str('t%d' % k, 1, TEXT[:2]) if k < 3 else 'x')
    nd, t, s = roundtrip(cx, T, d, cx.choice('layout', LAYOUTS[:2]))
    cx.observe(repr(s) if not isinstance(s, str) else s)


def names(cx, d, n):
    T = mk(cx, n, NAMES, lambda k: 'xyz'[:k % 2], attrs=False)
    if cx.bool('attr'):
        T[2][cx.choice('an', NAMES + ['attributes__', 'err'])] = 'v'
    nd, t, s = roundtrip(cx, T, d, cx.choice('layout', LAYOUTS[:2]))
    cx.observe(repr(s) if not isinstance(s, str) else s)


def names_sym(cx, n):
    nm = cx.str('name', n, CH)
    T = [nm, [[nm, 'x', {}]] if cx.bool('branch') else '', {}]
    if cx.bool('attr'):
        T[2][cx.str('an', n - 1, CH)] = 'v'
    nd, t, s = roundtrip(cx, T, 0, None)
    cx.observe(repr(unbuild(t)))


def pos(cx, d, n):
    T = mk(cx, n, ['a'] if n > 3 else ['a', 'b'], lambda k: 'xyz'[:(k + 1) % 3], attrs=False)
    if cx.bool('attr'):
        T[2]['k'] = 'v'

    def prep(nd):
        for i, p in enumerate(nodes_of(nd)):
            p[-1]._pos = cx.int('p%d' % i, -1, 100)
        return nd
    incl = cx.bool('include')
    nd, t, s = roundtrip(cx, T, d, cx.choice('layout', LAYOUTS[:2]), incl, prep)
    A = [p[-1]._pos for p in nodes_of(nd)]
    B = [p[-1]._pos for p in nodes_of(t)]
    cx.check(B == (A if incl else [-1] * len(A)), 'positions', lambda: (s, A, B))
    cx.observe(repr(B))
