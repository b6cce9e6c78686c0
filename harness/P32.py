"""P32: tree equality and node selectors are what they say."""
import re
from hutil import Job
from treeutil import shapes_upto, tree, build, same, nodes_of, content
from DHParser.nodetree import (Node, FrozenNode, RootNode, create_match_function,
                               create_path_match_function, ANY_NODE, NO_NODE, LEAF_NODE,
                               BRANCH_NODE, VOID_NODE, LEAF_PATH, BRANCH_PATH, VOID_PATH)
from DHParser.stringview import StringView

ASSUMPTIONS = ['attribute names are valid identifiers', 'attribute values are strings']


def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    J = [Job('equals', 'equals', {'n': n}, tags=['equal', 'different'], weight=10,
             max_paths=400000,
             bounds='all pairs of trees with up to %d nodes each, names from {a, b}, contents of '
                    '0..1 characters from {x, y}, strings or string views' % n),
         Job('attributes', 'attributes', {}, tags=['equal', 'different'], weight=10,
             max_paths=400000,
             bounds='two nodes with up to 2 attributes each (names p, q in any order, values of '
                    '0..1 characters from {x, y}), the attributes on the node or on its child'),
         Job('selectors', 'selectors', {'n': n}, weight=10, max_paths=400000,
             bounds='all trees with up to %d nodes, names of 1..2 characters from {a, b, :}, '
                    'contents of 0..2 arbitrary characters; every kind of selector' % n),
         Job('frozen', 'frozen', {}, tags=['hit', 'miss'], weight=5, max_paths=100000,
             bounds='frozen node and node with names from {a, b}, contents of 0..2 characters, '
                    'one attribute'),
         Job('children', 'children', {'n': 3 if q else 4}, weight=5, max_paths=100000,
             bounds='branch nodes with 1..%d children, names from {a, b}: in, [], get, index, '
                    'indices with every kind of selector' % (3 if q else 4))]
    return J


def equals(cx, n):
    S = shapes_upto(n)
    A = tree(cx, 'a', cx.choice('s1', S), alphabet=[(120, 121)])
    B = tree(cx, 'b', cx.choice('s2', S), alphabet=[(120, 121)])
    a, b = build(A), build(B)
    if cx.bool('view'):
        for p in nodes_of(a):
            if not p[-1].children:
                x = p[-1].result
                p[-1].result = StringView('.' + x + '.')[1:1 + len(x)]
    e = same(A, B)
    cx.tag('equal' if e else 'different')
    info = lambda: (a.as_sxpr(), b.as_sxpr())
    cx.check(bool(a.equals(b)) == e, 'equals', info)
    cx.check(bool(b.equals(a)) == e, 'equals (reversed)', info)
    cx.check(bool(a.equals(b, ignore_attr_order=False)) == e, 'equals', info)
    cx.check(a.equals(a) and b.equals(b), 'equal to itself', info)
    cx.observe(e)


def attrs(cx, key):
    k = cx.choice(key + 'order', ['', 'p', 'q', 'pq', 'qp'])
    return {x: cx.str(key + x, 1, [(120, 121)]) for x in k}


def attributes(cx):
    A, B = attrs(cx, 'a'), attrs(cx, 'b')
    deep = cx.bool('deep')
    touch = cx.bool('touch')
    r = []
    for D in (A, B):
        nd = Node('n', 'x')
        if touch:
            nd.attr
        if D:
            nd.with_attr(D)
        r.append(Node('m', (nd, Node('n', 'y'))) if deep else nd)
    a, b = r
    e = len(A) == len(B) and all(k in B and A[k] == B[k] for k in A)
    o = e and list(A) == list(B)
    cx.tag('equal' if e else 'different')
    info = lambda: (A, B, deep)
    cx.check(bool(a.equals(b)) == e, 'equal whatever the order of attributes', info)
    cx.check(bool(a.equals(b, False)) == o, 'equal in the same order of attributes', info)
    if not deep:
        cx.check(bool(a.has_equal_attr(b)) == e, 'has_equal_attr', info)
        cx.check(bool(a.has_equal_attr(b, False)) == o, 'has_equal_attr', info)
        cx.check(a.has_attr() == bool(A), 'has_attr', info)
        cx.check(a.has_attr('p') == ('p' in A), 'has_attr', info)
        cx.check(a.get_attr('p', None) == A.get('p'), 'get_attr', info)
    cx.observe(e, o)


def selectors(cx, n):
    sh = cx.choice('shape', shapes_upto(n))
    T = tree(cx, '', sh, maxlen=2, alphabet=[(0, 0xD7FF), (0xE000, 0x10FFFF)])
    T[0] = cx.str('name', 2, [(97, 98), (58, 58)], minlen=1)
    t = build(T)
    c = content(T)
    o = Node(T[0], 'x')
    path = [Node('r', (t,)), t]
    kind = cx.choice('kind', ['name', 'names', 'rx', 'fun', 'node', 'other', 'id', 'other_id',
                              'consts', 'bad', 'wrong'])
    if kind == 'name':
        crit, e = 'a', T[0] == 'a'
    elif kind == 'names':
        crit = cx.choice('box', [{'a', 'ab'}, ('a', 'ab'), frozenset(['a', 'ab']), ['a', 'ab']])
        e = T[0] == 'a' or T[0] == 'ab'
    elif kind == 'rx':
        crit, e = re.compile('x|xy'), c == 'x' or c == 'xy'
    elif kind == 'fun':
        crit, e = (lambda nd: nd.name == 'a'), T[0] == 'a'
        cx.check(bool(create_match_function(crit)(t)) == e, 'function')

        def crit2(nd: Node) -> bool:
            return nd.name == 'a'
        cx.check(bool(create_match_function(crit2)(t)) == e, 'annotated function')
        cx.check(bool(create_path_match_function(crit2)(path)) == e, 'annotated function, path')

        def crit3(p) -> bool:
            return p[-1].name == 'a'
        cx.check(bool(create_path_match_function(crit3)(path)) == e, 'path function')
        return
    elif kind == 'node':
        crit, e = t, True
    elif kind == 'other':
        crit, e = o, False
    elif kind == 'id':
        crit, e = id(t), True
    elif kind == 'other_id':
        crit, e = id(o), False
    elif kind == 'bad':
        try:
            create_match_function(1.5)
            cx.fail('no node selector')
        except TypeError:
            pass
        try:
            create_path_match_function(1.5)
            cx.fail('no path selector')
        except TypeError:
            pass
        return
    elif kind == 'wrong':
        def crit(nd: str) -> bool:
            return True
        try:
            create_match_function(crit)
            cx.fail('function with wrong signature')
        except ValueError:
            pass
        return
    else:
        leaf = not isinstance(T[1], list)
        cx.check(bool(LEAF_NODE(t)) == leaf and bool(LEAF_PATH(path)) == leaf, 'leaf')
        cx.check(bool(BRANCH_NODE(t)) == (not leaf) and bool(BRANCH_PATH(path)) == (not leaf),
                 'branch')
        void = leaf and T[1] == ''
        cx.check(bool(VOID_NODE(t)) == void and bool(VOID_PATH(path)) == void, 'void')
        cx.check(ANY_NODE(t) and not NO_NODE(t), 'any and no node')
        cx.check(t.anonymous == (T[0][0] == ':'), 'anonymous')
        return
    cx.check(bool(create_match_function(crit)(t)) == e, 'match function', lambda: (t.as_sxpr(), kind))
    cx.check(bool(create_path_match_function(crit)(path)) == e, 'path match function',
             lambda: (t.as_sxpr(), kind))
    cx.observe(e)


def frozen(cx):
    a, b = cx.str('a', 1, [(97, 98)], minlen=1), cx.str('b', 1, [(97, 98)], minlen=1)
    s, u = cx.str('s', 2, [(120, 121)]), cx.str('u', 2, [(120, 121)])
    f = FrozenNode(a, s)
    nd = Node(b, u)
    at = cx.bool('attr')
    if at:
        nd.attr['p'] = 'v'
    if cx.bool('branch'):
        nd = Node(b, (Node('c', u),))
        e = False
    else:
        e = a == b and s == u and not at
    cx.tag('hit' if e else 'miss')
    cx.check(bool(create_match_function(f)(nd)) == e, 'frozen node', lambda: (a, b, s, u, at))
    cx.check(bool(create_path_match_function(f)([nd])) == e, 'frozen node, path')
    cx.check(bool(nd.equals(f)) == e and bool(f.equals(nd)) == e, 'equals')
    cx.observe(e)


def children(cx, n):
    m = cx.choice('m', list(range(1, n + 1)))
    ch = [Node(cx.str('n%d' % i, 1, [(97, 98)], minlen=1), cx.str('t%d' % i, 1, [(120, 121)], minlen=1))
          for i in range(m)]
    t = Node('t', tuple(ch))
    kind = cx.choice('kind', ['name', 'names', 'rx', 'node', 'fun'])
    if kind == 'name':
        c, f = 'a', (lambda nd: nd.name == 'a')
    elif kind == 'names':
        c, f = {'a', 'c'}, (lambda nd: nd.name == 'a')
    elif kind == 'rx':
        c, f = re.compile('x'), (lambda nd: nd.result == 'x')
    elif kind == 'node':
        k = cx.choice('k', list(range(m)))
        c, f = ch[k], (lambda nd: nd is ch[k])
    else:
        c = f = lambda nd: nd.name == 'a' and nd.result == 'x'
    hit = [i for i in range(m) if f(ch[i])]
    info = lambda: (t.as_sxpr(), kind, hit)
    cx.check((c in t) == bool(hit), 'in', info)
    cx.check(t.indices(c) == tuple(hit), 'indices', info)
    try:
        r = t[c]
        r = [r] if isinstance(r, Node) else list(r)
        cx.check([id(x) for x in r] == [id(ch[i]) for i in hit] and r != [], '[]', info)
    except KeyError:
        cx.check(not hit, 'KeyError only if there is no such child', info)
    none = Node('none', '')
    cx.check(t.get(c, none) is (ch[hit[0]] if hit else none), 'get', info)
    r = t.get(c, ())
    cx.check([id(x) for x in r] == [id(ch[i]) for i in hit], 'get a sequence', info)
    a = cx.choice('start', list(range(m + 1)))
    b = a + cx.choice('span', list(range(1, m + 1)))
    e = [i for i in hit if a <= i < b]
    try:
        r = t.index(c, a, b)
        cx.check(bool(e) and r == e[0], 'index', info)
    except ValueError:
        cx.check(not e, 'ValueError only if there is no such child', info)
    cx.observe(hit)
