"""P19: tree transformations preserve content and order unless told otherwise."""
from hutil import Job
from treeutil import (shapes_upto, tree, build, unbuild, content, same, preorder, nodes_of, depth, show)
from DHParser.nodetree import Node, RootNode
from DHParser import transform as tf
from DHParser.transform import (
    traverse, is_one_of, not_one_of, is_anonymous, is_named, is_anonymous_leaf, is_empty, is_token,
    contains_only_whitespace, BLOCK_CHILDREN, BLOCK_LEAVES, BLOCK_ANONYMOUS_LEAVES)

ASSUMPTIONS = ['nodes that get merged or reduced do not have conflicting attributes',
               'contents and delimiters of merge_connected are disjoint (documented)',
               'left_associative: operands and named infix-leaves alternate (documented)']

A = {'a'}
B = {'b'}
is_a = is_one_of(A)
is_b = is_one_of(B)
not_a = not_one_of(A)


def lstrip_(path):
    tf.lstrip(path, is_a)


# name: (transformation, specific oracle or None, root allowed)
RESTRUCTURE = {
    'single': (tf.replace_by_single_child, 'o_single'),
    'reduce': (tf.reduce_single_child, 'o_reduce'),
    'children': (tf.replace_by_children, 'o_children'),
    'ror': (tf.replace_or_reduce, 'o_ror'),
    'ror_cond': (tf.replace_or_reduce(tf.three_valued(is_a, is_b)), None),
    'swap': (tf.swap_nested_nodes, 'o_swap'),
    'flatten': (tf.flatten, 'o_flatten'),
    'flatten_cond': (tf.flatten(is_a), 'o_flatten_cond'),
    'flatten_flat': (tf.flatten(is_anonymous, False), 'o_flatten_flat'),
    'collapse': (tf.collapse, 'o_collapse'),
    'collapse_if': (tf.collapse_children_if(is_a, 'c'), 'o_collapse_if'),
    'collapse_not': (tf.collapse_children_if(not_one_of({'a', 'c'}), 'c'), None),
    'merge': (tf.merge_adjacent(is_a), 'o_merge'),
    'merge_pref': (tf.merge_adjacent(is_a, 'c'), 'o_merge_pref'),
    'merge_named': (tf.merge_adjacent(is_anonymous, 'c'), None),
    'merge_swallow': (tf.merge_adjacent(is_one_of({'a', 'b'}), 'c', swallow=is_b), 'o_swallow'),
    'merge_swallow_keep': (tf.merge_adjacent(is_one_of({'a', 'b'}), swallow=is_b), 'o_swallow'),
    'merge_leaves': (tf.merge_leaves, 'o_merge_leaves'),
    'connected': (tf.merge_connected(is_a, is_b, 'c', 'd'), 'o_connected'),
    'connected_keep': (tf.merge_connected(is_a, is_b), 'o_connected'),
    'connected_swallow': (tf.merge_connected(is_one_of('a', ':a'), is_b, 'c', 'd',
                                             swallow=is_one_of(':a')), None),
    'connected_swallow_del': (tf.merge_connected(is_a, is_one_of('b', ':b'), 'c', 'd',
                                                 swallow=is_one_of(':b')), None),
    'fringes': (tf.move_fringes(is_a), 'o_fringes'),
    'fringes_left': (tf.move_fringes(is_a, side='left'), 'o_fringes_left'),
    'fringes_right': (tf.move_fringes(is_a, side='right'), 'o_fringes_right'),
    'fringes_nomerge': (tf.move_fringes(is_a, merge=False), 'o_fringes'),
    'pull_up': (tf.pull_up, 'o_pull_up'),
    'treetops': (lambda path: tf.merge_treetops(path[-1]), 'o_treetops'),
}
REMOVE = {
    'lstrip': (tf.lstrip(is_a), 'o_lstrip'),
    'rstrip': (tf.rstrip(is_a), 'o_rstrip'),
    'strip': (tf.strip(is_a), 'o_strip'),
    'strip_ws': (tf.strip, 'o_strip_ws'),
    'keep_if': (tf.keep_children_if(is_a), 'k_a'),
    'remove_if': (tf.remove_children_if(is_a), 'k_not_a'),
    'keep_nodes': (tf.keep_nodes(A), 'k_a'),
    'remove_nodes': (tf.remove_children(A), 'k_not_a'),
    'remove_empty': (tf.remove_empty, 'k_not_empty'),
    'remove_anon_empty': (tf.remove_anonymous_empty, 'k_not_anon_empty'),
    'keep_content': (tf.keep_content('a'), 'k_content'),
    'remove_content': (tf.remove_content('a'), 'k_not_content'),
    'remove_content_alt': (tf.remove_content('a|b$'), 'k_not_content_alt'),
    'infix': (tf.remove_infix_operator, 'o_infix'),
    'remove': (tf.remove, 'o_remove'),
    'remove_cond': (tf.remove_if(is_a), 'o_remove_if'),
}


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = 4 if q else 5
    for f in RESTRUCTURE:
        J.append(Job('struct-' + f, 'restructure', dict(f=f, n=n), weight=20, max_paths=500000,
                     bounds='all trees with up to %d nodes, names a, b, anonymous or not, leaves '
                            'with up to 1 arbitrary characters; applied to any node' % n))
    for f in REMOVE:
        n = (4 if 'strip' in f else 3) if q else 5
        J.append(Job('remove-' + f, 'removing', dict(f=f, n=n), weight=20, max_paths=500000,
                     bounds='all trees with up to %d nodes, names a, b, anonymous or not, leaves '
                            'with up to 2 of the characters a, b, blank, linefeed; applied to any node' % n))
    for f in ('fringes', 'fringes_nomerge', 'fringes_left', 'fringes_right'):
        m = (4 if f == 'fringes' else 3) if q else 5
        J.append(Job('deep-' + f, 'deep_fringes', dict(f=f, n=m), weight=20, max_paths=500000,
                     bounds='node with up to %d siblings and children in all combinations, leaves and '
                            'branches' % m))
    J.append(Job('merge-wide', 'merge_wide', dict(n=3 if q else 4), weight=10, max_paths=500000,
                 bounds='up to %d children, leaves and branches' % (3 if q else 4)))
    J.append(Job('lean', 'lean', dict(n=3 if q else 5), weight=5,
                 bounds='right-leaning trees with up to %d operators' % (3 if q else 5)))
    J.append(Job('leftassoc', 'leftassoc', dict(n=3 if q else 5), weight=5,
                 bounds='up to %d operators' % (3 if q else 5)))
    for flt in ('', 'children', 'leaves', 'anon', 'all_leaves'):
        J.append(Job('traverse-' + flt, 'walk', dict(n=3 if q else 4, flt=flt), weight=10, max_paths=500000,
                     bounds='all trees with up to %d nodes, three names; tables with and without the '
                            'special keys, filter: %s' % (3 if q else 4, flt)))
    for few in (False, True):
        m = 3 + (few or not q)
        J.append(Job('changing-%d' % few, 'changing', dict(n=m, few=few), weight=200, max_paths=500000,
                     bounds='all trees with up to %d nodes, traversal with %d times %d restructuring '
                            'transformations' % ((m, 1, 1) if few else (m, 8, 4))))
    J.append(Job('conditions', 'conditions', dict(n=3 if q else 4), weight=10, max_paths=500000,
                 bounds='all trees with up to %d nodes, names a, b, anonymous or not, every node' % (3 if q else 4)))
    J.append(Job('relatives', 'relatives', dict(n=5), weight=400, max_paths=500000,
                 bounds='all trees with up to %d nodes, names a, b, c; any number of generations' % 5))
    J.append(Job('insert', 'inserting', dict(n=3 if q else 4), weight=10, max_paths=500000,
                 bounds='up to %d children, up to two positions between -%d and %d' % ((3, 5, 5) if q else (4, 6, 6))))
    J.append(Job('branch', 'branching', dict(), weight=3, bounds='apply_if, apply_unless, apply_ifelse '
                 'with one or two transformations, neg, any_of, all_of, three_valued'))
    return J


TEXT = [(97, 98), (32, 32), (10, 10)]


def make(cx, n, maxlen=1, alphabet=((0, 0xD7FF), (0xE000, 0x10FFFF)), shape=None):
    sh = shape if shape is not None else cx.choice('shape', shapes_upto(n))
    T = tree(cx, 't', sh, maxlen=maxlen, alphabet=list(alphabet), anon=True)
    return T, build(T, RootNode) if False else RootNode(build(T))


def pick(cx, root):
    P = list(nodes_of(root))
    i = cx.choice('i', list(range(len(P))))
    return i, list(P[i])


def well_formed(cx, root, info):
    seen = set()
    for p in nodes_of(root):
        cx.check(id(p[-1]) not in seen, 'no node appears twice', info)
        seen.add(id(p[-1]))
        if isinstance(p[-1]._result, tuple):
            cx.check(p[-1]._children == p[-1]._result, 'children and result agree', info)
        else:
            cx.check(p[-1]._children == (), 'leaves do not have children', info)


def text(nd):
    """the content by the most elementary means"""
    return content(unbuild(nd))


def restructure(cx, f, n):
    fn, oracle = RESTRUCTURE[f]
    T, root = make(cx, n)
    i, path = pick(cx, root)
    Ts = [p for p in preorder(T)]
    before = content(T)
    root.with_pos(0)
    if f == 'children' and i == 0:
        cx.assume(isinstance(T[1], list) and len(T[1]) == 1 or True)
    fn(list(path))
    info = lambda: (f, show(T), i, show(unbuild(root)))
    well_formed(cx, root, info)
    cx.check(text(root) == before, 'the content is preserved', info)
    # the tree outside of the parent of the node is not touched
    if oracle is not None:
        want = globals()[oracle](cx, Ts[i], fn)
        if want is not None:
            cx.check(same(unbuild(root), replaced(T, *want)), 'result of the transformation',
                     lambda: (info(), show(replaced(T, *want))))
    cx.observe(text(root))


def removing(cx, f, n):
    fn, oracle = REMOVE[f]
    if f.endswith(('ws', 'content', 'alt')):
        n -= 1
    T, root = make(cx, n, 2 if f.endswith(('ws', 'content', 'alt')) else 1, TEXT)
    i, path = pick(cx, root)
    Ts = [p for p in preorder(T)]
    fn(list(path))
    info = lambda: (f, show(T), i, show(unbuild(root)))
    well_formed(cx, root, info)
    if oracle.startswith('k_'):
        t = Ts[i][-1]
        keep = globals()[oracle]
        want = (t, [t[0], norm([c for c in t[1] if keep(c)]), t[2]]) if isinstance(t[1], list) else (t, t)
    else:
        want = globals()[oracle](cx, Ts[i], fn)
    cx.check(same(unbuild(root), replaced(T, *want)), 'exactly these nodes are removed',
             lambda: (info(), show(replaced(T, *want))))
    cx.observe(text(root))


def replaced(T, old, new):
    """the structure T with the part `old` (by identity) replaced by `new` (None: removed)"""
    if T is old:
        return new
    if isinstance(T[1], list):
        return [T[0], [replaced(c, old, new) for c in T[1]], T[2]]
    return T


def norm(result):
    """a branch without children is an empty leaf"""
    return result if result else ''


# specification of the transformations on plain structures; yields (part, replacement)

def anonymous(t):
    return t[0][0] == ':'


def branch(t):
    return isinstance(t[1], list)


def o_single(cx, p, fn):
    t = p[-1]
    if branch(t) and len(t[1]) == 1:
        c = t[1][0]
        return t, [c[0] if anonymous(t) or not anonymous(c) else t[0], c[1], {}]
    return t, t


def o_reduce(cx, p, fn):
    t = p[-1]
    if branch(t) and len(t[1]) == 1:
        return t, [t[0], t[1][0][1], {}]
    return t, t


def o_children(cx, p, fn):
    t = p[-1]
    if len(p) == 1:
        return o_single(cx, p, fn)
    if not branch(t):
        return t, t
    par = p[-2]
    kids = []
    for c in par[1]:
        if c is t:
            kids.extend(t[1])
        else:
            kids.append(c)
    return par, [par[0], kids, {}]


def o_ror(cx, p, fn):
    t = p[-1]
    return o_reduce(cx, p, fn) if anonymous(t) else o_single(cx, p, fn)


def o_swap(cx, p, fn):
    t = p[-1]
    if branch(t) and len(t[1]) == 1:
        c = t[1][0]
        return t, [c[0], [[t[0], c[1], {}]], {}]
    return t, t


def flat(t, cond, recursive):
    kids = []
    for c in t[1]:
        if branch(c) and cond(c):
            kids.extend(flat(c, cond, recursive) if recursive else c[1])
        else:
            kids.append(c)
    return kids


def o_flatten(cx, p, fn):
    t = p[-1]
    return (t, [t[0], flat(t, anonymous, True), {}]) if branch(t) else (t, t)


def o_flatten_cond(cx, p, fn):
    t = p[-1]
    return (t, [t[0], flat(t, lambda c: c[0] == 'a', True), {}]) if branch(t) else (t, t)


def o_flatten_flat(cx, p, fn):
    t = p[-1]
    return (t, [t[0], flat(t, anonymous, False), {}]) if branch(t) else (t, t)


def o_collapse(cx, p, fn):
    t = p[-1]
    return t, [t[0], content(t), {}]


def o_treetops(cx, p, fn):
    def rec(t):
        if not branch(t):
            return t
        if all(not branch(c) and anonymous(c) for c in t[1]):
            return [t[0], content(t), {}]
        return [t[0], [rec(c) for c in t[1]], {}]
    return p[-1], rec(p[-1])


def o_collapse_if(cx, p, fn):
    """all leaves below chains of nodes named a are joined if they are adjacent"""
    t = p[-1]
    if not branch(t):
        return t, t
    kids = []
    is_open = [False]

    def add(c):
        if branch(c):
            is_open[0] = False
            for x in inner(c):
                kids.append(x)
        elif is_open[0]:
            kids[-1] = ['c', kids[-1][1] + c[1], {}]
        else:
            kids.append(['c', c[1], {}])
            is_open[0] = True

    def inner(t):
        out, op = [], False
        for c in t[1]:
            if c[0] == 'a':
                if branch(c):
                    out.extend(inner(c))
                    op = False
                elif op:
                    out[-1] = ['c', out[-1][1] + c[1], {}]
                else:
                    out.append(['c', c[1], {}])
                    op = True
            else:
                out.append(c)
                op = False
        return out
    for c in t[1]:
        if c[0] == 'a':
            if branch(c):
                # borders of branches may or may not be joined; only leaves are specified here
                return None
            add(c)
        else:
            kids.append(c)
            is_open[0] = False
    return t, [t[0], kids, {}]


def groups(kids, cond):
    out = []
    for c in kids:
        if cond(c):
            if out and isinstance(out[-1], tuple):
                out[-1] = out[-1] + (c,)
            else:
                out.append((c,))
        else:
            out.append(c)
    return out


def joined(group):
    """merged result: text if all are leaves; adjacent anonymous leaves are joined"""
    if not any(branch(c) for c in group):
        s = ''
        for c in group:
            s = s + c[1]
        return s
    kids = []
    for c in group:
        kids.extend(c[1] if branch(c) else [[':Text', c[1], {}]])
    return fused(kids)


def fused(kids):
    out, last = [], False
    for c in kids:
        anon = not branch(c) and anonymous(c)
        if anon and last:
            out[-1] = [out[-1][0], out[-1][1] + c[1], {}]
        else:
            out.append(c)
        last = anon
    return out


def merged(t, cond, name):
    if not branch(t):
        return t
    kids = []
    for g in groups(t[1], cond):
        if isinstance(g, tuple):
            kids.append([name if name and len(g) > 1 else g[0][0], joined(g), {}])
        else:
            kids.append(g)
    return [t[0], kids, {}]


def o_merge(cx, p, fn):
    return p[-1], merged(p[-1], lambda c: c[0] == 'a', '')


def o_merge_pref(cx, p, fn):
    return p[-1], merged(p[-1], lambda c: c[0] == 'a', 'c')


def o_merge_leaves(cx, p, fn):
    return p[-1], merged(p[-1], lambda c: not branch(c) and anonymous(c), '')


def o_swallow(cx, p, fn):
    """every swallowed node is kept as a whole"""
    return None


def o_connected(cx, p, fn):
    t = p[-1]
    if not branch(t):
        return t, t
    keep = fn.keywords.get('content_name', '') == ''
    first = merged(t, lambda c: c[0] == 'b', '' if keep else 'd')
    is_del = lambda c: c[0] == 'b'
    if not keep:
        # merged delimiters have got another name and thus separate the contents
        pass
    kids, i, K = [], 0, first[1]
    while i < len(K):
        if K[i][0] == 'a':
            g = [K[i]]
            i += 1
            while i < len(K) and (K[i][0] == 'a' or is_del(K[i])):
                g.append(K[i])
                i += 1
            if is_del(g[-1]):
                g.pop()
                i -= 1
            kids.append(['a' if keep else 'c', joined(g), {}])
        else:
            kids.append(K[i])
            i += 1
    return t, [t[0], kids, {}]


def o_pull_up(cx, p, fn):
    if len(p) <= 2:
        return p[-1], p[-1]
    node, par, ur = p[-1], p[-2], p[-3]
    left, right, seen = [], [], False
    for c in par[1]:
        if c is node:
            seen = True
        elif seen:
            right.append(c)
        else:
            left.append(c)
    inlay = [[par[0], left, {}]] if left else []
    inlay.append([node[0], [[par[0], node[1], {}]], {}])
    if right:
        inlay.append([par[0], right, {}])
    kids = []
    for c in ur[1]:
        kids.extend(inlay if c is par else [c])
    return ur, [ur[0], kids, {}]


def o_fringes(cx, p, fn):
    return fringes(p, True, True, fn.keywords.get('merge', True))


def o_fringes_left(cx, p, fn):
    return fringes(p, True, False, True)


def o_fringes_right(cx, p, fn):
    return fringes(p, False, True, True)


def fringes(p, left, right, merge):
    """the nodes at the fringe are in the parent now, merged with neighbours of the same kind"""
    node = p[-1]
    if len(p) == 1 or not branch(node):
        return node, node
    par = p[-2]
    cond = lambda c: c[0] == 'a'
    inner = list(node[1])
    before, after = [], []
    if left:
        while inner and cond(inner[0]):
            before.append(inner.pop(0))
    if right:
        while inner and cond(inner[-1]):
            after.insert(0, inner.pop())
    if not before and not after:
        return node, node
    k = 0
    while par[1][k] is not node:
        k += 1
    prev, foll = list(par[1][:k]), list(par[1][k + 1:])
    if merge:
        pn = []
        while prev and cond(prev[-1]):
            pn.insert(0, prev.pop())
        before = compatible(pn + before)
        nn = []
        while foll and cond(foll[0]):
            nn.append(foll.pop(0))
        after = compatible(after + nn)
    return par, [par[0], prev + before + [[node[0], norm(inner), {}]] + after + foll, {}]


def compatible(group):
    """merge leaves with leaves and branches with branches, but not both"""
    if len(group) <= 1:
        return group
    if all(branch(c) for c in group):
        kids = []
        for c in group:
            kids.extend(c[1])
        return [['a', fused(kids), {}]]
    if not any(branch(c) for c in group):
        s = ''
        for c in group:
            s = s + c[1]
        return [['a', s, {}]]
    return group


def stripped(t, cond, left, right):
    """removes leading and/or trailing descendants"""
    if not branch(t):
        return t
    kids = list(t[1])
    while left and kids:
        kids[0] = stripped(kids[0], cond, True, False)
        if not cond(kids[0]):
            break
        kids.pop(0)
    while right and kids:
        kids[-1] = stripped(kids[-1], cond, False, True)
        if not cond(kids[-1]):
            break
        kids.pop()
    return [t[0], norm(kids), {}]


def o_lstrip(cx, p, fn):
    return p[-1], stripped(p[-1], lambda c: c[0] == 'a', True, False)


def o_rstrip(cx, p, fn):
    return p[-1], stripped(p[-1], lambda c: c[0] == 'a', False, True)


def o_strip(cx, p, fn):
    return p[-1], stripped(p[-1], lambda c: c[0] == 'a', True, True)


def blank(c):
    for ch in content(c):
        if ch not in ' \n':
            return False
    return True


def o_strip_ws(cx, p, fn):
    return p[-1], stripped(p[-1], blank, True, True)


def k_a(c): return c[0] == 'a'
def k_not_a(c): return not c[0] == 'a'
def k_not_empty(c): return branch(c) or len(c[1]) > 0
def k_not_anon_empty(c): return k_not_empty(c) or not anonymous(c)
def k_content(c): return content(c) == 'a'
def k_not_content(c): return not content(c) == 'a'
def k_not_content_alt(c): return not (content(c) == 'a' or content(c) == 'b')


def o_infix(cx, p, fn):
    t = p[-1]
    return (t, [t[0], t[1][::2], {}]) if branch(t) else (t, t)


def o_remove(cx, p, fn):
    if len(p) == 1:
        return p[0], p[0]
    par = p[-2]
    return par, [par[0], norm([c for c in par[1] if c is not p[-1]]), {}]


def o_remove_if(cx, p, fn):
    return o_remove(cx, p, fn) if p[-1][0] == 'a' else (p[-1], p[-1])


def element(cx, key, name, k):
    """a leaf or a branch with one or two leaves"""
    c = chr(48 + 3 * k)
    kind = cx.choice(key, ['leaf', 'branch', 'two'])
    if kind == 'leaf':
        return [name, c, {}]
    kids = [[':x', c, {}], ['y', chr(49 + 3 * k), {}]]
    return [name, kids[:1 if kind == 'branch' else 2], {}]


def deep_fringes(cx, f, n):
    """(r prev* (s kids*) next*)"""
    fn, oracle = RESTRUCTURE[f]
    m = cx.choice('m', list(range(1, n)))
    l = cx.choice('l', list(range(0, n - m + 1)))
    r = cx.choice('r', list(range(0, n - m - l + 1)))
    el = lambda k: element(cx, 'e%d' % k, 'a' if cx.bool('c%d' % k) else 'b', k)
    kids = [el(k) for k in range(l + m + r)]
    # at most two elements are branches
    cx.assume(sum(1 for k in kids if branch(k)) <= 2)
    S = ['s', kids[l:l + m], {}]
    T = ['r', kids[:l] + [S] + kids[l + m:], {}]
    root = RootNode(build(T)).with_pos(0)
    path = [root, root.children[l]]
    want = globals()[oracle](cx, (T, S), fn)
    fn(path)
    info = lambda: (f, show(T), show(unbuild(root)))
    well_formed(cx, root, info)
    cx.check(text(root) == content(T), 'the content is preserved', info)
    cx.check(same(unbuild(root), replaced(T, *want)), 'fringes moved and merged',
             lambda: (info(), show(replaced(T, *want))))
    cx.observe(text(root))


def merge_wide(cx, n):
    m = cx.choice('m', list(range(1, n + 1)))
    kids = [element(cx, 'e%d' % k, cx.choice('n%d' % k, ['a', 'b', 'c']), k) for k in range(m)]
    cx.assume(sum(1 for k in kids if branch(k)) <= 2)
    T = ['r', kids, {}]
    which = cx.choice('f', ['merge', 'merge_pref', 'merge_swallow', 'merge_swallow_keep', 'connected_keep',
                            'connected', 'collapse_if', 'collapse_not'])
    fn, oracle = RESTRUCTURE[which]
    root = RootNode(build(T)).with_pos(0)
    whole = [nd for nd in root.children if nd.name == 'b']
    fn([root])
    info = lambda: (which, show(T), show(unbuild(root)))
    well_formed(cx, root, info)
    cx.check(text(root) == content(T), 'the content is preserved', info)
    if which.startswith('merge_swallow'):
        every = [p[-1] for p in nodes_of(root)]
        for nd in whole:
            cx.check(sum(1 for x in every if x is nd) == 1 and nd.name == 'b',
                     'swallowed nodes are kept', info)
    if oracle:
        want = globals()[oracle](cx, (T,), fn)
        if want is not None:
            cx.check(same(unbuild(root), replaced(T, *want)), 'merged',
                     lambda: (info(), show(replaced(T, *want))))
    cx.observe(text(root))


def lean(cx, n):
    k = cx.choice('k', list(range(1, n + 1)))
    ops = [cx.choice('o%d' % i, ['add', 'mul']) for i in range(k)]
    attr = cx.choice('attr', list(range(-1, k)))
    T = ['x', str(k), {}]
    for i in range(k - 1, -1, -1):
        T = [ops[i], [['x', str(i), {}], T], {'id': str(i)} if i == attr else {}]
    root = RootNode(build(T))
    traverse(root, {'add, mul': tf.lean_left({'add', 'mul'})})
    W = ['x', '0', {}]
    for i in range(k):
        W = [ops[i], [W, ['x', str(i + 1), {}]], {'id': str(i)} if i == attr else {}]
    cx.check(same(unbuild(root), W), 'leaning left', lambda: (show(T), show(unbuild(root)), show(W)))
    cx.observe(text(root))


def leftassoc(cx, n):
    k = cx.choice('k', list(range(0, n + 1)))
    ops = [cx.str('o%d' % i, 1, [(42, 43)], minlen=1) for i in range(k)]
    kids = [['x', '0', {}]]
    W = kids[0]
    for i in range(k):
        kids += [[ops[i], '', {}], ['x', str(i + 1), {}]]
        W = [ops[i], [W, ['x', str(i + 1), {}]], {}]
    T = ['r', kids, {}]
    root = RootNode(build(T))
    tf.left_associative([root])
    cx.check(same(unbuild(root), ['r', [W], {}]), 'left associative tree', lambda: show(unbuild(root)))
    cx.observe(text(root))


def log(calls, key):
    def note(path):
        calls.append((key, tuple(path)))
    return note


def walk(cx, n, flt):
    T = tree(cx, 't', cx.choice('shape', shapes_upto(n)), names=None, maxlen=0)
    for k, p in enumerate(preorder(T)):
        p[-1][0] = cx.choice('n%d' % k, ['a', ':b', 'b'])
    root = RootNode(build(T))
    calls = []
    table = {}
    special = cx.choice('special', [(False,) * 4, (True,) * 4, (False, True, False, True),
                                    (True, False, True, False)])
    if special[0]: table['<'] = log(calls, '<')
    if special[1]: table['*'] = [log(calls, '*'), log(calls, '**')]
    if special[2]: table['>'] = [log(calls, '>')]
    if special[3]:
        table['<<<'] = log(calls, '<<<')
        table['>>>'] = log(calls, '>>>')
    F = {'': [], 'children': [BLOCK_CHILDREN], 'leaves': [BLOCK_LEAVES],
         'anon': [BLOCK_ANONYMOUS_LEAVES], 'all_leaves': []}[flt]
    if flt == 'all_leaves':
        table['<'] = [BLOCK_LEAVES] + ([table['<']] if special[0] else [])
    compound = cx.bool('compound')
    if compound:
        table['a, :b'] = F + [log(calls, 'a'), log(calls, 'a2')]
    else:
        table['a'] = F + [log(calls, 'a'), log(calls, 'a2')]
        table[':b'] = F + [log(calls, 'a'), log(calls, 'a2')]
    want = []

    def visit(p):
        nd = p[-1]
        listed = nd.name == 'a' or nd.name == ':b'
        kids = [] if not isinstance(nd._result, tuple) else list(nd._result)
        if flt == 'children' and listed: kids = []
        elif (flt == 'leaves' and listed) or flt == 'all_leaves':
            kids = [c for c in kids if isinstance(c._result, tuple)]
        elif flt == 'anon' and listed:
            kids = [c for c in kids if isinstance(c._result, tuple) or c.name[0] != ':']
        for c in kids:
            visit(p + (c,))
        if special[0]: want.append(('<', p))
        if listed: want.extend([('a', p), ('a2', p)])
        elif special[1]: want.extend([('*', p), ('**', p)])
        if special[2]: want.append(('>', p))
    if special[3]: want.append(('<<<', (root,)))
    visit((root,))
    if special[3]: want.append(('>>>', (root,)))
    again = cx.bool('again') if flt or special[3] else False
    r = traverse(root, table)
    info = lambda: (show(T), special, flt, compound, [(k, [nd.name for nd in p]) for k, p in calls],
                    [(k, [nd.name for nd in p]) for k, p in want])
    cx.check(r is root, 'the tree itself', info)
    if again:           # with the table that has been expanded meanwhile
        calls.clear()
        traverse(root, table)
    cx.check(len(calls) == len(want), 'once per node', info)
    for (k, p), (l, q) in zip(calls, want):
        cx.check(k == l and len(p) == len(q) and all(x is y for x, y in zip(p, q)),
                 'order of the transformations', info)
    cx.check(same(unbuild(root), T), 'the tree is not changed', info)
    cx.observe(len(calls))


CHANGING = [tf.replace_by_single_child, tf.flatten, tf.reduce_single_child, tf.replace_by_children,
            tf.move_fringes(is_a), tf.merge_adjacent(is_a), tf.merge_leaves, tf.collapse_children_if(is_a, 'c')]


def changing(cx, n, few):
    T, root = make(cx, n)
    table = {'a': cx.choice('fa', CHANGING[4:5] if few else CHANGING),
             ':b, b': cx.choice('fb', CHANGING[3:4] if few else [CHANGING[k] for k in (1, 3, 4, 5)]), '*': tf.flatten}
    root.with_pos(0)
    traverse(root, table)
    info = lambda: (show(T), table, show(unbuild(root)))
    well_formed(cx, root, info)
    cx.check(text(root) == content(T), 'the content is preserved', info)
    cx.observe(text(root))


def conditions(cx, n):
    T, root = make(cx, n, 2, TEXT)
    i, path = pick(cx, root)
    t = list(preorder(T))[i][-1]
    info = lambda: (show(T), i)
    ck = lambda got, want, what: cx.check(isinstance(got, bool) and got == want, what, info)
    ck(tf.is_named(path), not anonymous(t), 'is_named')
    ck(tf.is_anonymous(path), anonymous(t), 'is_anonymous')
    ck(tf.is_anonymous_leaf(path), anonymous(t) and not branch(t), 'is_anonymous_leaf')
    ck(tf.is_empty(path), not branch(t) and len(t[1]) == 0, 'is_empty')
    ck(tf.contains_only_whitespace(path), blank(t), 'contains_only_whitespace')
    ck(tf.is_one_of(path, {'a', ':b'}), t[0] == 'a' or t[0] == ':b', 'is_one_of')
    ck(tf.not_one_of(path, {'a', ':b'}), not (t[0] == 'a' or t[0] == ':b'), 'not_one_of')
    ck(tf.is_a(path, 'a'), t[0] == 'a', 'is_a')
    ck(tf.not_a(path, 'a'), t[0] != 'a', 'not_a')
    ck(tf.name_matches(path, ':.*'), anonymous(t), 'name_matches')
    ck(tf.name_matches(path, 'a|:'), t[0] == 'a', 'name_matches')
    s = content(t)
    ck(tf.content_matches(path, 'a|ab'), s == 'a' or s == 'ab', 'content_matches')
    ck(tf.content_matches(path, 'b*$'), all([c == 'b' for c in s]), 'content_matches')
    ck(tf.content_matches(path, r'a|b$'), s == 'a' or s == 'b', 'content_matches')
    ck(tf.has_content(path, 'ab'), s == 'ab', 'has_content')
    ck(tf.has_children(path), branch(t), 'has_children')
    if len(path) > 1:
        ck(tf.is_single_child(path), len(list(preorder(T))[i][-2][1]) == 1, 'is_single_child')
    cx.observe(s)


def relatives(cx, n):
    sh = cx.choice('shape', shapes_upto(n))
    T = tree(cx, 't', sh, names=[(97, 99)], maxlen=0)
    root = RootNode(build(T))
    i, path = pick(cx, root)
    p = list(preorder(T))[i]
    info = lambda: (show(T), i)
    names = {'a', 'b'}
    hit = lambda t: not t[0] == 'c'
    anc = [hit(t) for t in reversed(p[:-1])]
    g = cx.int('g', -1, n)
    want = any(anc) if g <= 0 else any(anc[:g])
    cx.check(tf.has_ancestor(path, names, g) == want, 'has_ancestor', lambda: (info(), g))
    cx.check(tf.has_parent(path, names) == any(anc[:1]), 'has_parent', info)

    def desc(t, k):
        return branch(t) and k != 0 and any([hit(c) or desc(c, k - 1) for c in t[1]])
    if g != 0:
        cx.check(tf.has_descendant(path, names, g) == desc(p[-1], g), 'has_descendant', lambda: (info(), g))
    cx.check(tf.has_child(path, names) == desc(p[-1], 1), 'has_child', info)
    sib = len(p) > 1 and any([c is not p[-1] and hit(c) for c in p[-2][1]])
    cx.check(tf.has_sibling(path, names) == sib, 'has_sibling', info)
    # up to and including the first node with a certain name
    lim = []
    for t in reversed(p[:-1]):
        lim.append(t[0] == 'a' or t[0] == 'b' and False)
        if t[0] == 'b':
            break
    if not p[-1][0] == 'b':
        cx.check(tf.has_ancestor(path, {'a'}, -1, 'b') == any(lim), 'has_ancestor until', info)
    cx.observe(g)


def inserting(cx, n):
    m = cx.choice('m', list(range(0, n + 1)))
    kids = [['x', cx.str('t%d' % k, 1, [(97, 97)]), {}] for k in range(m)]
    T = ['r', norm(kids), {}]
    root = RootNode(build(T)).with_pos(0)
    kind = cx.choice('kind', ['one', 'two', 'none', 'delim', 'call'])
    maker = tf.node_maker('D', ',')
    if kind == 'delim':
        tf.delimit_children([root], maker)
        pos = list(range(1, m))
    elif kind == 'none':
        tf.insert([root], (), maker)
        pos = []
    else:
        p = cx.int('p', -n - 2, n + 2)
        q = cx.int('q', -n - 2, n + 2) if kind == 'two' else None
        pos = [p] if q is None else [p, q]
        for x in pos:
            cx.assume(x >= -m)
        arg = p if kind == 'one' else tuple(pos)
        tf.insert([root], arg if kind != 'call' else (lambda path: arg), maker)
    at = [min(max(x if x >= 0 else x + m, 0), m) for x in pos]
    want, off = [], 0
    for k in range(m + 1):
        for x in at:
            if x == k:
                want.append(['D', ',', off])
        if k < m:
            want.append(['x', kids[k][1], off])
            off += len(kids[k][1])
    got = [[c.name, c.content, c._pos] for c in root.children]
    cx.check(got == want, 'inserted', lambda: (show(T), pos, got, want))
    cx.check(len(set(id(c) for c in root.children)) == len(got), 'fresh nodes', lambda: got)
    cx.observe(len(got))


def branching(cx):
    calls = []
    one = cx.bool('one')
    note = log(calls, 'x')
    other = log(calls, 'y')
    X = note if one else (note, other)
    c1, c2 = cx.bool('c1'), cx.bool('c2')
    f1, f2 = (lambda p: c1), (lambda p: c2)
    path = [Node('a', '')]
    x = ['x'] if one else ['x', 'y']

    def ran(fn):
        calls.clear()
        fn(path)
        return [k for k, _ in calls]
    info = lambda: (c1, c2, one)
    cx.check(ran(tf.apply_if(X, f1)) == (x if c1 else []), 'apply_if', info)
    cx.check(ran(tf.apply_unless(X, f1)) == ([] if c1 else x), 'apply_unless', info)
    cx.check(ran(tf.apply_ifelse(X, other, f1)) == (x if c1 else ['y']), 'apply_ifelse', info)
    cx.check(tf.neg(f1)(path) == (not c1), 'neg', info)
    cx.check(tf.any_of({f1, f2})(path) == (c1 or c2), 'any_of', info)
    cx.check(tf.all_of({f1, f2})(path) == (c1 and c2), 'all_of', info)
    t = tf.three_valued(f1, f2)(path)
    cx.check(t is (True if c1 else False if c2 else None), 'three_valued', info)
    cx.observe(c1)
