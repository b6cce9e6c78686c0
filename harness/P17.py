"""P17: markup, splitting and inserting nodes preserve content and order."""
import copy
from hutil import Job
from treeutil import shapes_upto, tree, build, nodes_of, depth
from DHParser.nodetree import (Node, ContentMapping, LEAF_PATH, NO_PATH, leaf_paths,
                               split_node, deep_split, full_split, insert_node, markup_leaf,
                               tree_sanity_check, reset_chain_ID)

ASSUMPTIONS = ['no node object occurs more than once in a tree']


def jobs(tier):
    q = tier == 'quick'
    J = []
    b = 'all trees with %s nodes, names from {a, b}, leaves of %d..%d arbitrary characters, '

    def add(name, fn, lo, hi, a, z, w, text, **kw):
        J.append(Job('%s-%d-%d' % (name, hi, z), fn, dict(lo=lo, hi=hi, a=a, z=z, **kw), weight=w,
                     max_paths=800000, bounds=b % ('%d..%d' % (lo, hi), a, z) + text))
    rng = 'every range, divisible: nothing, a, everything; greedy or not; chained or not'
    lean = rng.replace(' or not; chained or not', '; greedy; chained')
    add('markup', 'markup', 1, 2, 0, 2, 10, rng)
    if q:
        add('markup', 'markup', 3, 3, 0, 2, 10, lean, lean=True)
        add('markup', 'markup', 4, 4, 1, 1, 20, lean, lean=True)
        add('wide', 'markup', 5, 5, 1, 1, 20, lean, lean=True, wide=True)
    else:
        add('markup', 'markup', 3, 3, 0, 2, 10, rng)
        add('markup', 'markup', 4, 4, 0, 2, 20, rng)
        add('markup', 'markup', 5, 5, 1, 1, 20, rng)
        add('markup', 'markup', 5, 5, 0, 2, 90, rng)
        add('markup', 'markup', 6, 6, 1, 1, 90, rng)
    add('ignore', 'markup', 1, 4, 0, 1, 20, rng + '; leaves below a ignored', ignore=True)
    add('second', 'second', 2, 3 if q else 4, 1, 1 if q else 1, 20,
        'two markups one after the other, every pair of ranges, two names')
    add('insert', 'insert', 1, 4, 0, 1, 10, 'node with or without content inserted at every position')
    add('split', 'split', 1, 4, 0, 2, 10, 'every node split at every index, both biases')
    add('deep', 'deep', 1, 4 if q else 5, 0, 1, 10, 'split along every leaf path at every offset, both '
        'biases, greedy or not, as deep_split and full_split')
    return J


def size(s):
    return 1 + sum(size(c) for c in s)


def the_tree(cx, lo, hi, a, z, lean=False, wide=False):
    sh = cx.choice('shape', [s for s in shapes_upto(hi) if lo <= size(s)
                             and (not wide or len(s) == 2 and all(len(c) == 1 for c in s))])
    T = tree(cx, '', sh, maxlen=z, minlen=a, alphabet=[(99, 122)])
    t = build(T)
    if lean or cx.bool('positioned'):
        t.with_pos(2)
    return t


def text(nd):
    s = ''
    for p in nodes_of(nd):
        if not p[-1].children:
            s = s + str(p[-1]._result)
    return s


def chars(t, hide, f=lambda p: True):
    """for every character the names above it, new elements and anonymous nodes left out"""
    r = []
    for p in nodes_of(t):
        if not p[-1].children and f(p):
            names = [x.name for x in p if x.name not in hide and x.name[0] != ':']
            r += [names] * len(str(p[-1]._result))
    return r


def covered(t, name, f=lambda p: True):
    """positions covered by elements with this name"""
    r, at = [], 0
    for p in nodes_of(t):
        if not p[-1].children and f(p):
            n = len(str(p[-1]._result))
            if any(x.name == name for x in p):
                r += list(range(at, at + n))
            at += n
    return r


def count(t, name):
    return sum(1 for p in nodes_of(t) if p[-1].name == name)


def ids(p):
    return [id(x) for x in p]


def shapes(t):
    return [[x.name for x in p] for p in nodes_of(t)]


def check_mapping(cx, t, cm, f, info):
    L = [p for p in nodes_of(t) if not p[-1].children and f(p)]
    cx.check([ids(p) for p in cm.path_list] == [ids(p) for p in L], 'mapping: paths', info)
    at, P, e = 0, [], ''
    for p in L:
        P.append(at)
        at += len(str(p[-1]._result))
        e = e + str(p[-1]._result)
    cx.check(cm.pos_list == P, 'mapping: positions', info)
    cx.check(cm.content == e, 'mapping: content', info)


def check_positions(cx, t, info):
    if t._pos < 0:
        return
    at = t._pos
    for p in nodes_of(t):
        cx.check(p[-1]._pos == at, 'position of node', lambda: (info(), p[-1].name, p[-1]._pos, at))
        if not p[-1].children:
            at += len(str(p[-1]._result))


def mapping(cx, t, chain='', ignore=False, lean=False):
    div = cx.choice('div', ['none', 'a', 'all'])
    D = {'none': set(), 'a': {'a'}, 'all': {'a', 'b', 'm'}}[div]
    greedy = lean or cx.bool('greedy')
    kw = {'ignore': {'a'}} if ignore else {}
    cm = ContentMapping(t, greedy=greedy, divisibility=D, chain_attr_name=chain, **kw)
    return cm, D, greedy


def markup(cx, lo, hi, a, z, ignore=False, lean=False, wide=False):
    t = the_tree(cx, lo, hi, a, z, lean, wide)
    f = (lambda p: not any(x.name == 'a' for x in p)) if ignore else (lambda p: True)
    chain = '' if ignore else 'chain' if lean else cx.choice('chain', ['', 'chain'])
    reset_chain_ID()
    cm, D, greedy = mapping(cx, t, chain, ignore, lean)
    if not cm.path_list:
        return
    N = len(cm.content)
    start = cx.int('start', 0, N)
    end = cx.int('end', 0, N)
    cx.assume(start <= end)
    before, names = text(t), chars(t, ('m',))
    num = {x: count(t, x) for x in 'ab'}
    src, leafy = t.as_sxpr(), bool(t.children)
    at = {'k': 'v'}
    loc = cm.get_location(start)
    try:
        anc, idx = cm.markup(start, end, 'm', at)
    except ValueError:
        leaf = loc[1][-1]
        cx.check(start == end and 0 < loc[2] and loc[2] < len(leaf._result)
                 and leaf.name not in D and leaf.name[0] != ':', 'only milestones inside of indivisible leaves are refused',
                 lambda: (src, start, end, D))
        return
    info = lambda: (src, start, end, D, greedy, t.as_sxpr(), str(cm))
    cx.check(text(t) == before, 'content unchanged', info)
    cov = covered(t, 'm', f)
    cx.check(cov == list(range(start, end)), 'exactly the range is marked up', info)
    # (a milestone put into a tree that is but a leaf moves the content of the leaf to new leaves
    # of the same name below it, as documented for insert_node)
    if leafy or start < end:
        cx.check(chars(t, ('m',)) == names, 'elements above each character unchanged', info)
        for x in 'ab':
            if x not in D:
                cx.check(count(t, x) == num[x], 'indivisible nodes stay in one piece', info)
    M = [p[-1] for p in nodes_of(t) if p[-1].name == 'm']
    cx.check(bool(M), 'markup has been added', info)
    for nd in M:
        cx.check(nd.attr.get('k') == 'v', 'attributes of the markup', info)
    for p in nodes_of(t):
        cx.check(sum(1 for x in p if x.name == 'm') <= 1, 'markup not nested', info)
        cx.check(p[-1].name[0] != ':' or not p[-1].children, 'text nodes are leaves', info)
    if chain and len(M) > 1:
        c = M[0].attr.get(chain)
        cx.check(c and all(nd.attr.get(chain) == c for nd in M), 'pieces of the markup chained', info)
    inside = [p for p in nodes_of(t) if p[-1] is anc]
    cx.check(len(inside) == 1, 'the ancestor returned is part of the tree', info)
    cx.check(all(any(x is nd for q in nodes_of(anc) for x in q) for nd in M),
             'the ancestor contains all of the markup', info)
    cx.check(tree_sanity_check(t), 'sane', info)
    cx.check(at == {'k': 'v'}, 'the dictionary passed is not changed', info)
    if start < end:
        check_positions(cx, t, info)
    check_mapping(cx, t, cm, f, info)
    cx.observe(t.as_sxpr())


def second(cx, lo, hi, a, z):
    t = the_tree(cx, lo, hi, a, z)
    cm, D, greedy = mapping(cx, t)
    N = len(cm.content)
    R = [(cx.int('s1', 0, N), cx.int('e1', 0, N)), (cx.int('s2', 0, N), cx.int('e2', 0, N))]
    for s, e in R:
        cx.assume(s <= e)
    before, names = text(t), chars(t, ('m', 'n'))
    src = t.as_sxpr()
    mid = ''
    try:
        cm.markup(R[0][0], R[0][1], 'm')
        mid = t.as_sxpr()
        num = {x: count(t, x) for x in 'abm'}
        cm.markup(R[1][0], R[1][1], 'n')
    except ValueError:
        cx.check(R[0][0] == R[0][1] or R[1][0] == R[1][1], 'only milestones are refused',
                 lambda: (src, R, D, mid))
        return
    info = lambda: (src, R, D, greedy, mid, t.as_sxpr())
    cx.check(text(t) == before, 'content unchanged', info)
    for x, (s, e) in zip('mn', R):
        cx.check(covered(t, x) == list(range(s, e)), 'exactly the range is marked up', info)
    cx.check(chars(t, ('m', 'n')) == names, 'elements above each character unchanged', info)
    for x in 'abm':
        if x not in D:
            cx.check(count(t, x) == num[x], 'indivisible nodes stay in one piece', info)
    check_positions(cx, t, info)
    check_mapping(cx, t, cm, lambda p: True, info)
    cx.observe(t.as_sxpr())


def insert(cx, lo, hi, a, z):
    t = the_tree(cx, lo, hi, a, z)
    cm, D, greedy = mapping(cx, t)
    N = len(cm.content)
    k = cx.int('pos', 0, N)
    left = cx.bool('left')
    nd = Node('m', cx.choice('text', ['', 'XY']))
    before = text(t)
    src = t.as_sxpr()
    names = chars(t, ('m',))
    kids = [p[-1] for p in nodes_of(t)]
    info = lambda: (src, k, left, D, t.as_sxpr(), str(cm))
    i, path, off = cm.get_location(k, left)
    leaf = path[-1]
    leaf.attr['x'] = 'y'
    try:
        par, idx = cm.insert_node(k, nd, left)
    except ValueError:
        cx.check(leaf.name not in D and 0 < off and off < len(str(leaf._result)),
                 'insertion fails only inside of an indivisible leaf', info)
        del leaf.attr['x']
        cx.check(t.as_sxpr() == src, 'nothing changed on failure', info)
        return
    cx.check(text(t) == before[:k] + nd._result + before[k:], 'content', info)
    cx.check(any(x is nd for x in par.children), 'parent of the new node', info)
    P = [p for p in nodes_of(t) if p[-1] is nd]
    cx.check(len(P) == 1, 'the node occurs once', info)
    q = P[0]
    at = 0
    for p in nodes_of(t):
        if p[-1] is nd:
            break
        if not p[-1].children:
            at += len(str(p[-1]._result))
    cx.check(at == k, 'the node is located at the position', info)
    if t.name == 'a' or len(path) > 1:
        e = names[:k] + [[x.name for x in q[:-1]]] * len(nd._result) + names[k:]
        if len(path) > 1:
            cx.check(chars(t, ('m',)) == e, 'elements above each character unchanged', info)
    for p in nodes_of(t):
        if not p[-1].children and p[-1] is not nd and p[-1].name == leaf.name and len(path) > 1 and \
                p[-2] is path[-2] and p[-1] not in kids:
            cx.check(p[-1].get_attr('x', '') == 'y', 'attributes of a divided leaf', info)
    cx.check(tree_sanity_check(t), 'sane', info)
    if not nd._result:
        check_positions(cx, t, info)
    check_mapping(cx, t, cm, lambda p: True, info)
    cx.observe(t.as_sxpr())


def split(cx, lo, hi, a, z):
    t = the_tree(cx, lo, hi, a, z)
    P = [p for p in nodes_of(t) if len(p) > 1]
    if not P:
        return
    p = P[cx.choice('node', list(range(len(P))))]
    nd, par = p[-1], p[-2]
    L = len(nd._result)
    i = cx.int('i', 0, L)
    left = cx.bool('left')
    at = {'id': '1'} if cx.bool('attr') else {}
    nd.attr.update(at)
    c = {'chain': 'X'} if cx.bool('chain') else None
    src, before, ntext = t.as_sxpr(), text(t), text(nd)
    kids = list(par.children)
    j = [id(x) for x in kids].index(id(nd))
    parts = [text(x) for x in nd.children] if nd.children else None
    k = split_node(nd, par, i, left, c)
    info = lambda: (src, nd.name, i, left, t.as_sxpr(), k)
    cx.check(text(t) == before, 'content unchanged', info)
    off = ''.join(parts[:i]) if parts is not None else ntext[:i]
    cx.check(''.join(text(x) for x in par.children[:k]) ==
             ''.join(text(x) for x in kids[:j]) + off, 'index is that of the split', info)
    cut = 0 < i and i < L
    if not cut:
        cx.check([id(x) for x in par.children] == [id(x) for x in kids], 'no cut at the borders',
                 info)
        e = j if i == 0 and (left or L > 0) else j + 1
        cx.check(k == e, 'index at the border', info)
    else:
        cx.check(len(par.children) == len(kids) + 1 and k == j + 1, 'one node more', info)
        r = par.children[k]
        e = dict(at, **(c or {}))
        cx.check(r.name == nd.name and dict(r.attr) == e and dict(nd.attr) == e,
                 'name and attributes of the parts', info)
        cx.check(r.attr is not nd.attr, 'attributes not shared')
        cx.check([id(x) for n, x in enumerate(par.children) if n != k] == [id(x) for x in kids],
                 'other nodes kept', info)
    check_positions(cx, t, info)
    cx.observe(t.as_sxpr(), k)


def deep(cx, lo, hi, a, z):
    t = the_tree(cx, lo, hi, a, z)
    P = [p for p in nodes_of(t) if not p[-1].children]
    p = list(P[cx.choice('leaf', list(range(len(P))))])
    i = cx.int('i', 0, len(p[-1]._result))
    left, greedy, full = cx.bool('left'), cx.bool('greedy'), cx.bool('full')
    src, before, names = t.as_sxpr(), text(t), chars(t, ())
    pos = 0
    for q in P:
        if q[-1] is p[-1]:
            break
        pos += len(str(q[-1]._result))
    pos += i
    info = lambda: (src, p[-1].name, i, left, greedy, t.as_sxpr())
    if full:
        r, tail = full_split(p, i, left, greedy)
        cx.check(r is t and tail.name == t.name, 'left part is the tree itself', info)
        cx.check(text(r) == before[:pos] and text(tail) == before[pos:], 'contents of both parts',
                 lambda: (info(), tail.as_sxpr()))
        cx.check(chars(r, ()) + chars(tail, ()) == names, 'elements above each character unchanged',
                 info)
        cx.check(not {id(x[-1]) for x in nodes_of(r)} & {id(x[-1]) for x in nodes_of(tail)},
                 'nothing shared')
    else:
        k = deep_split(p, i, left, greedy)
        cx.check(text(t) == before, 'content unchanged', info)
        cx.check(chars(t, ()) == names, 'elements above each character unchanged', info)
        if t.children:
            cx.check(''.join(text(x) for x in t.children[:k]) == before[:pos],
                     'index is that of the split', lambda: (info(), k))
        else:
            cx.check(k == i, 'index within the leaf')
        check_positions(cx, t, info)
    cx.observe(t.as_sxpr())
