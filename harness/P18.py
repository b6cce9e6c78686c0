"""P18: tree and path navigation agrees with document order."""
import re
from hutil import Job
from treeutil import shapes_upto, depth, tree, build, nodes_of, preorder
from DHParser.nodetree import (
    Node, ANY_NODE, NO_NODE, ANY_PATH, NO_PATH, LEAF_NODE, LEAF_PATH, EMPTY_NODE,
    prev_path, next_path, next_leaf_path, prev_leaf_path, leaf_path, FIRST_CHILD, LAST_CHILD,
    get_prev_leaf, get_next_leaf, foregoing_str, ensuing_str, pred_siblings, succ_siblings,
    get_prev_sibling, get_next_sibling, select_path, select_path_if, pick_path, zoom_into_path,
    select_from_path, pick_from_path, select_from_path_if, pick_from_path_if, path_head_if,
    path_tail_if, path_head, path_tail, find_common_ancestor,
    path_sanity_check, path_str, drop_leaf, pp_path)

ASSUMPTIONS = ['no node object occurs more than once in a tree']


def jobs(tier):
    q = tier == 'quick'
    n = 5 if q else 6
    S = shapes_upto(n)
    b = 'all tree shapes with up to %d nodes, names from {a, b}, ' % n
    J = []
    for k, (lo, hi) in enumerate(((1, 4), (5, 5), (6, 6))):
        if not any(lo <= size(s) <= hi for s in S):
            continue
        r = {'lo': lo, 'hi': hi}
        w = 4 ** k
        J.append(Job('select-%d' % hi, 'select', r, weight=10 * w, max_paths=200000,
                     bounds=b + 'all selectors of names, skip, reverse, include_root (%d..%d nodes)'
                            % (lo, hi)))
        J.append(Job('paths-%d' % hi, 'paths', r, weight=5 * w, max_paths=200000,
                     bounds=b + 'every node as starting point (%d..%d nodes)' % (lo, hi)))
        J.append(Job('from-%d' % hi, 'selfrom', r, weight=10 * w, max_paths=200000,
                     bounds=b + 'every node as starting point, selectors of names, skip, reverse, '
                                'include_root (%d..%d nodes)' % (lo, hi)))
        J.append(Job('content-%d' % hi, 'textual', r, weight=5 * w, max_paths=200000, tags=['inside', 'outside'],
                     bounds=b + 'leaves of 0..1 arbitrary characters, every location in [-2, '
                                'length + 1], all lengths (%d..%d nodes)' % (lo, hi)))
        J.append(Job('ancestor-%d' % hi, 'ancestor', r, weight=3 * w, max_paths=200000,
                     bounds=b + 'all pairs of paths (%d..%d nodes)' % (lo, hi)))
    m = 4 if q else 5
    J.append(Job('along', 'along', {'n': m}, weight=4,
                 bounds='chains of 1..%d nodes with names from {a, b}, all criteria' % m))
    J.append(Job('drop', 'drop', {'lo': 1, 'hi': n}, weight=8, max_paths=200000,
                 bounds=b + 'every leaf dropped'))
    return J


def size(s):
    return 1 + sum(size(c) for c in s)


def the_tree(cx, lo, hi, maxlen=0, **k):
    sh = cx.choice('shape', [s for s in shapes_upto(hi) if lo <= size(s)])
    T = tree(cx, '', sh, maxlen=maxlen, **k)
    return T, build(T)


def ids(nodes):
    return [id(n) for n in nodes]


def pids(paths):
    return [[id(n) for n in p] for p in paths]


def order(nd, reverse, skip, path=()):
    """nodes below nd in document order (last child first if reverse), subtrees of skipped
    nodes left out; yields paths"""
    ch = list(nd.children)
    if reverse:
        ch = ch[::-1]
    for c in ch:
        p = path + (c,)
        yield p
        if not skip(c):
            yield from order(c, reverse, skip, p)


CRIT = ['a', 'set', 'any', 'leaf']


def crit(cx, key, options):
    """a selector and the predicate it stands for"""
    c = cx.choice(key, options)
    if c == 'a':
        return 'a', (lambda nd: nd.name == 'a'), c
    if c == 'set':
        return {'b', 'c'}, (lambda nd: nd.name == 'b'), c
    if c == 'any':
        return ANY_NODE, (lambda nd: True), c
    if c == 'none':
        return NO_NODE, (lambda nd: False), c
    return LEAF_NODE, (lambda nd: not nd.children), c


def select(cx, lo, hi):
    T, t = the_tree(cx, lo, hi)
    sel, f, c = crit(cx, 'crit', CRIT)
    skp, g, d = crit(cx, 'skip', ['none', 'a', 'set'])
    rev, inc = cx.bool('reverse'), cx.bool('root')
    exp = [p for p in ([(t,)] if inc else [])]
    if not (inc and g(t)):
        exp += list(order(t, rev, g, (t,)))
    exp = [p for p in exp if f(p[-1])]
    info = lambda: (t.as_sxpr(), c, d, rev, inc)
    got = list(t.select(sel, inc, rev, skp))
    cx.check(ids(got) == ids(p[-1] for p in exp), 'select', info)
    psel = sel if c != 'leaf' else LEAF_PATH
    got = list(t.select_path(psel, inc, rev, skp))
    cx.check(pids(got) == pids(exp), 'select_path', info)
    first = exp[0] if exp else None
    got = t.pick(sel, inc, rev, skp)
    cx.check(got is (first[-1] if first else None), 'pick', info)
    got = t.pick_path(psel, inc, rev, skp)
    cx.check(ids(got) == ids(first or ()), 'pick_path', info)
    ch = [x for x in (t.children[::-1] if rev else t.children) if f(x)]
    cx.check(ids(t.select_children(sel, rev)) == ids(ch), 'select_children', info)
    cx.check(t.pick_child(sel, rev) is (ch[0] if ch else None), 'pick_child', info)
    if c == 'any' and d == 'none':
        cx.check(ids(t.walk_tree(inc, rev)) == ids(p[-1] for p in exp), 'walk_tree', info)
        cx.check(pids(t.walk_tree_paths(inc, rev)) == pids(exp), 'walk_tree_paths', info)
    cx.observe(len(exp))


def before(p, q):
    """Does path p lie completely before path q (document order, neither an ancestor)?"""
    for a, b, par in zip(p[1:], q[1:], p):
        if a is not b:
            ch = ids(par.children)
            return ch.index(id(a)) < ch.index(id(b))
    return False


def paths(cx, lo, hi):
    T, t = the_tree(cx, lo, hi)
    P = list(nodes_of(t))
    i = cx.choice('start', list(range(len(P))))
    p = list(P[i])
    leaf = lambda x: not x[-1].children
    info = lambda: (t.as_sxpr(), i)
    pre = [q for q in P if before(q, p)]
    post = [q for q in P if before(p, q)]
    # the predecessor is the largest subtree directly before the node
    e = [q for q in pre if not any(before(q, r) for r in pre)]
    r = prev_path(p)
    cx.check(ids(r or ()) == ids(min(e, key=len, default=())), 'prev_path', info)
    e = [q for q in post if not any(before(r, q) for r in post)]
    r = next_path(p)
    cx.check(ids(r or ()) == ids(min(e, key=len, default=())), 'next_path', info)
    e = [q for q in pre if leaf(q)]
    r = prev_leaf_path(p)
    cx.check(ids(r or ()) == ids(e[-1] if e else ()), 'prev_leaf_path', info)
    e2 = [q for q in post if leaf(q)]
    r = next_leaf_path(p)
    cx.check(ids(r or ()) == ids(e2[0] if e2 else ()), 'next_leaf_path', info)
    # leaves with skipping
    e = [q[-1] for q in e if q[-1].name != 'a']
    cx.check(get_prev_leaf(p, None, skip='a') is (e[-1] if e else None), 'get_prev_leaf', info)
    e2 = [q[-1] for q in e2 if q[-1].name != 'a']
    cx.check(get_next_leaf(p, None, skip='a') is (e2[0] if e2 else None), 'get_next_leaf', info)
    # first and last leaf below
    below = [q for q in P if ids(q[:len(p)]) == ids(p) and leaf(q)]
    cx.check(ids(leaf_path(p, FIRST_CHILD)) == ids(below[0]), 'first leaf', info)
    cx.check(ids(leaf_path(p, LAST_CHILD)) == ids(below[-1]), 'last leaf', info)
    z = zoom_into_path(p, FIRST_CHILD, 1)
    cx.check(ids(z) == ids(p + list(p[-1].children[:1])), 'one step into the path', info)
    # siblings
    if len(p) > 1:
        sib = list(p[-2].children)
        k = ids(sib).index(id(p[-1]))
        f = lambda nd: nd.name == 'a'
        pr, su = [x for x in sib[:k] if f(x)], [x for x in sib[k + 1:] if f(x)]
        cx.check(ids(pred_siblings(p, 'a')) == ids(pr), 'pred_siblings', info)
        cx.check(ids(pred_siblings(p, 'a', reverse=True)) == ids(pr[::-1]), 'reversed', info)
        cx.check(ids(succ_siblings(p, 'a')) == ids(su), 'succ_siblings', info)
        cx.check(ids(succ_siblings(p, 'a', reverse=True)) == ids(su[::-1]), 'reversed', info)
        cx.check(get_prev_sibling(p, None, skip='b') is (pr[-1] if pr else None), 'prev', info)
        cx.check(get_next_sibling(p, None, skip='b') is (su[0] if su else None), 'next', info)
        cx.check(t.find_parent(p[-1]) is p[-2], 'find_parent', info)
    else:
        try:
            list(pred_siblings(p))
            cx.fail('root has no siblings', info)
        except ValueError:
            pass
        cx.check(t.find_parent(p[-1]) is None, 'find_parent', info)
    cx.check(ids(t.reconstruct_path(p[-1])) == ids(p), 'reconstruct_path', info)
    cx.check(path_sanity_check(p), 'path_sanity_check', info)
    try:
        t.reconstruct_path(Node('a', ''))
        cx.fail('reconstruct_path of a foreign node', info)
    except ValueError:
        pass
    cx.check(path_str(p) == '/' + '/'.join(n.name for n in p) + ('/' if p[-1].children else ''),
             'path_str', info)
    cx.observe(i)


def selfrom(cx, lo, hi):
    T, t = the_tree(cx, lo, hi)
    P = list(nodes_of(t))
    i = cx.choice('start', list(range(len(P))))
    p = list(P[i])
    sel, f, c = crit(cx, 'crit', ['a', 'any'])
    skp, g, d = crit(cx, 'skip', ['none', 'a'])
    rev, inc = cx.bool('reverse'), cx.bool('root')
    exp = []
    if inc:
        exp += [tuple(p)] + list(sub(tuple(p), rev, g))
    for k in range(len(p) - 1, 0, -1):
        ch = list(p[k - 1].children)
        j = ids(ch).index(id(p[k]))
        for s in (ch[:j][::-1] if rev else ch[j + 1:]):
            if not g(s):
                q = tuple(p[:k]) + (s,)
                exp += [q] + list(sub(q, rev, g))
        exp.append(tuple(p[:k]))
    exp = [q for q in exp if f(q[-1])]
    info = lambda: (t.as_sxpr(), i, c, d, rev, inc)
    got = list(select_path(p, sel, inc, rev, skp))
    cx.check(pids(got) == pids(exp), 'select_path', info)
    cx.check(ids(p) == ids(P[i]), 'start path untouched')
    got = pick_path(p, sel, inc, rev, skp)
    cx.check(ids(got or ()) == ids(exp[0] if exp else ()), 'pick_path', info)
    cx.observe(len(exp))


def sub(p, rev, g):
    ch = list(p[-1].children)
    for s in (ch[::-1] if rev else ch):
        if not g(s):
            q = p + (s,)
            yield q
            yield from sub(q, rev, g)


def textual(cx, lo, hi):
    sh = cx.choice('shape', [s for s in shapes_upto(hi) if lo <= size(s)])
    T = tree(cx, '', sh, names=None, maxlen=1, alphabet=[(97, 122)])
    t = build(T)
    P = list(nodes_of(t))
    lv = [q for q in P if not q[-1].children]
    total = ''.join(str(q[-1].result) for q in lv)
    k = cx.int('loc', -2, len(total) + 1)
    r, rp = t.locate(k), t.locate_path(k)
    info = lambda: (t.as_sxpr(), k, r)
    if k < 0 or k >= len(total):
        cx.tag('outside')
        cx.check(r is None and not rp, 'None outside of the content', info)
    else:
        cx.tag('inside')
        n = 0
        for q in lv:
            m = n + len(str(q[-1].result))
            if n <= k < m:
                cx.check(r is q[-1], 'the leaf that covers the location', info)
                cx.check(ids(rp) == ids(q), 'path of the leaf', info)
            n = m
    i = cx.choice('start', list(range(len(P))))
    ln = cx.int('len', -1, 2)
    p = list(P[i])
    pre = ''.join(str(q[-1].result) for q in lv if before(q, p))
    post = ''.join(str(q[-1].result) for q in lv if before(p, q))
    a, b = foregoing_str(p, ln), ensuing_str(p, ln)
    if ln >= 0:
        pre = pre[len(pre) - ln:] if ln < len(pre) else pre
        post = post[:ln]
    cx.check(a == pre, 'foregoing text', lambda: (t.as_sxpr(), i, ln, a))
    cx.check(b == post, 'ensuing text', lambda: (t.as_sxpr(), i, ln, b))
    cx.observe(a, b)


def ancestor(cx, lo, hi):
    T, t = the_tree(cx, lo, hi)
    P = list(nodes_of(t))
    i = cx.choice('i', list(range(len(P))))
    j = cx.choice('j', list(range(len(P))))
    p, q = list(P[i]), list(P[j])
    nd, k = find_common_ancestor(p, q)
    e = -1
    for a, b in zip(p, q):
        if a is not b:
            break
        e += 1
    cx.check(nd is p[e] and k == e, 'common ancestor', lambda: (t.as_sxpr(), i, j, nd, k))
    o = build(T)
    nd, k = find_common_ancestor(p, list(list(nodes_of(o))[j]))
    cx.check(nd is None, 'no common ancestor in different trees')
    cx.observe(k)


def along(cx, n):
    m = cx.choice('m', list(range(1, n + 1)))
    nodes = [Node(cx.str('n%d' % i, 1, [(97, 98)], minlen=1), '') for i in range(m)]
    for a, b in zip(nodes[-2::-1], nodes[::-1]):
        a.result = (b,)
    greedy, rev = cx.bool('greedy'), cx.bool('rev')
    hits = [i for i in range(m) if nodes[i].name == 'a']
    info = lambda: ([x.name for x in nodes], greedy)
    e = nodes[:(hits[-1] if greedy else hits[0]) + 1] if hits else []
    cx.check(ids(path_head(nodes, 'a', greedy)) == ids(e), 'path_head', info)
    e = nodes[(hits[0] if greedy else hits[-1]):] if hits else []
    cx.check(ids(path_tail(nodes, 'a', greedy)) == ids(e), 'path_tail', info)
    e = [nodes[i] for i in (hits[::-1] if rev else hits)]
    cx.check(ids(select_from_path(nodes, 'a', rev)) == ids(e), 'select_from_path', info)
    cx.check(pick_from_path(nodes, 'a', rev) is (e[0] if e else None), 'pick_from_path', info)
    f = lambda nd: nd.name == 'a'
    cx.check(ids(select_from_path_if(nodes, f, rev)) == ids(e), 'select_from_path_if', info)
    cx.check(pick_from_path_if(nodes, f, rev) is (e[0] if e else None), 'pick_from_path_if', info)
    cx.check(ids(path_head_if(nodes, f, greedy)) == ids(path_head(nodes, 'a', greedy)),
             'path_head_if', info)
    cx.check(ids(path_tail_if(nodes, f, greedy)) == ids(path_tail(nodes, 'a', greedy)),
             'path_tail_if', info)
    cx.check(pp_path(nodes) == ' <- '.join(x.name for x in nodes), 'pp_path', info)
    cx.observe(len(hits))


def drop(cx, lo, hi):
    T, t = the_tree(cx, lo, hi)
    P = list(nodes_of(t))
    lv = [q for q in P if not q[-1].children]
    i = cx.choice('leaf', list(range(len(lv))))
    p = list(lv[i])
    dead = {id(x[-1]) for x in P if len(x) > 1
            and all(y is lv[i] for y in lv if ids(y[:len(x)]) == ids(x))}
    exp = [id(x[-1]) for x in P if id(x[-1]) not in dead]
    s = t.as_sxpr()
    drop_leaf(p)
    got = [id(x[-1]) for x in nodes_of(t)]
    cx.check(got == exp, 'exactly the leaf and the branches emptied thereby disappear',
             lambda: (s, i, t.as_sxpr()))
    cx.observe(len(got))
