"""P16: content mappings locate every text position in the tree."""
from hutil import Job
from treeutil import shapes_upto, tree, build, nodes_of
from DHParser.nodetree import (Node, ContentMapping, LEAF_PATH, NO_PATH, leaf_paths, ANY_NODE)

ASSUMPTIONS = ['no node object occurs more than once in a tree',
               'selectors accept leaf-paths only, as the documentation demands']


def jobs(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    b = 'all trees with up to %d nodes, names from {a, b}, leaves of 0..%d arbitrary characters, ' \
        'all selections and exclusions by name or path' % (n, 2)
    kw = {'n': n, 'maxlen': 2}
    return [Job('locate', 'locate', kw, weight=10, max_paths=400000, tags=['inside', 'outside'],
                bounds=b + ', every position in [-2, length + 2], left biased or not'),
            Job('iterate', 'iterate', dict(kw, maxlen=1), weight=10, max_paths=400000,
                bounds=b + ' (leaves of 0..1 characters), every pair of positions'),
            Job('nodes', 'nodes', dict(kw, maxlen=1), weight=10, max_paths=400000,
                tags=['found', 'absent'],
                bounds=b + ' (leaves of 0..1 characters), every node of the tree'),
            Job('rebuild', 'rebuild', dict(kw, n=n, maxlen=1), weight=10, max_paths=400000,
                bounds=b + ' (leaves of 0..1 characters); one leaf changed or branch extended, '
                           'then the mapping rebuilt for the positions affected'),
            Job('bad', 'bad', {'n': n}, weight=1, max_paths=100000, tags=['ok', 'error'],
                bounds='selectors that may accept branches, trees with up to %d nodes' % n)]


def the_mapping(cx, n, maxlen):
    T = tree(cx, '', cx.choice('shape', shapes_upto(n)), maxlen=maxlen, alphabet=[(97, 122)])
    t = build(T)
    sel = cx.choice('select', ['all', 'below_a', 'leaf_b', 'no_a', 'path'])
    a = lambda p: any(x.name == 'a' for x in p)
    if sel == 'all':
        cm, f = ContentMapping(t), lambda p: True
    elif sel == 'below_a':
        cm, f = ContentMapping(t, select=leaf_paths('a')), a
    elif sel == 'leaf_b':
        def leaf_b(p):
            return not p[-1].children and p[-1].name == 'b'
        cm, f = ContentMapping(t, select=leaf_b), lambda p: p[-1].name == 'b'
    elif sel == 'no_a':
        cm, f = ContentMapping(t, ignore={'a'}), lambda p: not a(p)
    else:
        def skip(p):
            return len(p) == 2 and p[1].name == 'a'
        cm, f = ContentMapping(t, ignore=skip), lambda p: not (len(p) > 1 and p[1].name == 'a')
    return t, cm, f


def ids(p):
    return [id(x) for x in p]


def leafpaths(t, f):
    return [p for p in nodes_of(t) if not p[-1].children and f(p)]


def agree(cx, t, cm, f, what):
    """The mapping is that of the selected leaves."""
    L = leafpaths(t, f)
    info = lambda: (t.as_sxpr(), str(cm))
    cx.check([ids(p) for p in cm.path_list] == [ids(p) for p in L], what + ': paths', info)
    at, e, P = 0, '', []
    for p in L:
        P.append(at)
        at += len(str(p[-1]._result))
        e = e + str(p[-1]._result)
    cx.check(cm.pos_list == P, what + ': positions', info)
    cx.check(cm.content == e, what + ': content', info)
    return L, P, e


def locate(cx, n, maxlen):
    t, cm, f = the_mapping(cx, n, maxlen)
    L, P, e = agree(cx, t, cm, f, 'mapping')
    k = cx.int('pos', -2, len(e) + 2)
    left = cx.bool('left')
    info = lambda: (t.as_sxpr(), str(cm), k, left)
    try:
        i = cm.get_path_index(k, left)
        p, o = cm.get_path_and_offset(k, left)
        j, p2, o2 = cm.get_location(k, left)
        cx.tag('inside')
        cx.check(bool(L) and 0 <= k and k <= len(e), 'positions outside are rejected', info)
        cx.check(0 <= i and i < len(L), 'valid index', info)
        cx.check(ids(p) == ids(L[i]) and o == k - P[i], 'path and offset', info)
        cx.check(j == i and ids(p2) == ids(p) and o2 == o, 'location', info)
        n = len(str(p[-1]._result))
        cx.check(0 <= o and o <= n, 'offset within the leaf', info)
        if left:
            cx.check(o > 0 or k == 0, 'left-biased: after the end of the previous path', info)
        elif k < len(e):
            cx.check(o < n and str(p[-1]._result)[o] == e[k], 'the leaf contains the character',
                     info)
        cx.check(ids(cm.path(i)) == ids(p) and cm.pos(i) == P[i], 'accessors')
        cx.check(list(cm.node_names(i)) == [x.name for x in p], 'names')
        cx.observe(i, o)
    except IndexError:
        cx.tag('outside')
        cx.check(not L or k < 0 or k > len(e), 'positions inside are not rejected', info)


def iterate(cx, n, maxlen):
    t, cm, f = the_mapping(cx, n, maxlen)
    L = leafpaths(t, f)
    if not L:
        cx.check(cm.content == '' and cm.path_list == [], 'empty mapping')
        return
    N = len(cm.content)
    a, b = cx.int('a', 0, N), cx.int('b', 0, N)
    left = cx.bool('left')
    i, j = cm.get_path_index(a, left), cm.get_path_index(b, left)
    if a <= b:
        cx.check(i <= j, 'indices increase with the position')
    e = L[i:j + 1] if i <= j else L[j:i + 1][::-1]
    cx.check([ids(p) for p in cm.iterate_paths(a, b, left)] == [ids(p) for p in e], 'paths between',
             lambda: (t.as_sxpr(), a, b, left))
    cx.observe(i, j)


def nodes(cx, n, maxlen):
    t, cm, f = the_mapping(cx, n, maxlen)
    L = leafpaths(t, f)
    P = list(nodes_of(t))
    k = cx.choice('node', list(range(len(P))))
    nd = P[k][-1]
    hit = [i for i, p in enumerate(L) if any(x is nd for x in p)]
    cx.tag('found' if hit else 'absent')
    info = lambda: (t.as_sxpr(), str(cm), nd.as_sxpr())
    cx.check(cm.get_node_index(nd) == (hit[0] if hit else -1), 'first path with the node', info)
    cx.check(cm.get_node_index(nd, True) == (hit[-1] if hit else -1), 'last path with the node',
             info)
    cx.check(cm.get_node_position(nd) == (cm.pos_list[hit[0]] if hit else -1), 'first position',
             info)
    e = cm.pos_list[hit[-1]] + len(str(L[hit[-1]][-1]._result)) if hit else -1
    cx.check(cm.get_node_position(nd, True) == e, 'last position', info)
    cx.check(cm.get_node_index(Node('a', '')) == -1 and cm.get_node_index(None) == -1, 'foreign')
    # selecting nodes
    rev = cx.bool('reverse')
    if L:
        got = list(cm.select(lambda x: x is nd, reverse=rev))
        e = [(id(nd), hit[-1] if rev else hit[0])] if hit else []
        cx.check([(id(x), i) for x, i in got] == e, 'select one node', info)
        got = cm.pick(lambda x: x is nd, reverse=rev)
        cx.check((got[0] is nd and got[1] == e[0][1]) if e else tuple(got) == (None, -1), 'pick')
        leaf = lambda x: not x.children
        got = [(id(x), i) for x, i in cm.select(leaf, reverse=rev)]
        e = [(id(p[-1]), i) for i, p in enumerate(L)]
        cx.check(got == (e[::-1] if rev else e), 'select all leaves', info)
    cx.observe(hit)


def rebuild(cx, n, maxlen):
    t, cm, f = the_mapping(cx, n, maxlen)
    L = leafpaths(t, f)
    if not L:
        return
    i = cx.choice('i', list(range(len(L))))
    lo, hi = cm.pos_list[i], cm.pos_list[i] + L[i][-1].strlen()
    how = cx.choice('how', ['longer', 'shorter', 'sibling', 'deeper'])
    nd = L[i][-1]
    a, b = i, i
    if cx.bool('wide'):
        a, b = max(0, i - 1), min(len(L) - 1, i + 1)
    if how == 'longer':
        nd.result = nd.result + '##'
    elif how == 'shorter':
        nd.result = ''
    elif how == 'sibling':
        # the changed node must be part of what is rebuilt: the common ancestor of both paths
        par = L[i][-2] if len(L[i]) > 1 else None
        if par is None or not any(x is not y and q is par for x, y, q in
                                  zip(L[a][1:], L[b][1:], L[a])):
            return
        par.insert(par.index(nd) + 1, Node(nd.name, '#'))
    else:
        if nd.name == 'a' or not nd.result:
            return
        nd.result = (Node('b', '#'), Node('b', '##'))
    cm.rebuild_mapping_slice(a, b)
    agree(cx, t, cm, f, 'rebuilt mapping')
    cx.observe(lo, hi)


def bad(cx, n):
    T = tree(cx, '', cx.choice('shape', shapes_upto(n)), maxlen=0)
    t = build(T)
    P = list(nodes_of(t))
    # a selector that accepts branches is rejected if it does so in this tree
    branch = [p for p in P if p[-1].children and p[-1].name == 'a']
    try:
        ContentMapping(t, select='a')
        cx.tag('ok')
        cx.check(not branch, 'selectors must not accept branches', lambda: t.as_sxpr())
    except ValueError:
        cx.tag('error')
        cx.check(bool(branch), 'a selector that accepts leaves only is fine', lambda: t.as_sxpr())
    cx.observe(len(branch))
