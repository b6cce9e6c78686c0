"""P15: node trees keep content, length and positions consistent."""
import copy
import re
from hutil import Job
from treeutil import shapes_upto, tree, build, same, unbuild, nodes_of, content
from DHParser.nodetree import (Node, FrozenNode, RootNode, content_of, strlen_of, LEAF_PATH,
                               NO_PATH, tree_sanity_check)
from DHParser.stringview import StringView

ASSUMPTIONS = ['no node object occurs more than once in a tree',
               'positions are assigned to trees no node of which has a position yet']
TEXT = [(97, 122), (0x1F600, 0x1F610)]


def jobs(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    b = 'all trees with up to %d nodes, leaves of 0..%d characters (strings or string views)'
    k = 3 if q else 4
    J = [Job('content', 'consistent', {'n': n}, weight=10, max_paths=400000,
             bounds=b % (n, 2) + ', root position 0..3; content, length, positions'),
         Job('copy', 'duplicate', {'n': n - 1}, weight=10, max_paths=400000,
             bounds=b % (n - 1, 1) + ', one attribute; deep copy, then any one change of copy or '
                                 'original'),
         Job('replace_by', 'replace', {'n': 2 if q else 3}, weight=5, max_paths=400000,
             bounds='all pairs of trees with up to %d nodes, with and without attributes and '
                    'positions' % (2 if q else 3)),
         Job('content_of', 'parts', {'n': n}, weight=5, max_paths=400000,
             bounds=b % (n, 1) + ', names from {a, b}; content_of and strlen_of with selection '
                                 'and exclusion by name'),
         Job('named', 'named', {'m': k}, weight=8, max_paths=400000, tags=['ok', 'error'],
             bounds='branch with 0..%d children with names from {a, b, c}, selectors: name, set of '
                    'names, regular expression, function, node; get, set one, set several, '
                    'delete, contains, index in any section, indices, get with surrogate' % k),
         Job('ops', 'listops', {'m': k, 'steps': 1}, weight=10, max_paths=400000,
             bounds='branch with 0..%d children, every operation with every index in [-%d, %d], '
                    'every slice, every name, against the same operation on a list' % (k, k + 2, k + 2),
             tags=['ok', 'error']),
         Job('history', 'listops', {'m': 2, 'steps': 2 if q else 3}, weight=20, max_paths=800000,
             bounds='branch with 0..2 children, %d operations in a row (index -2..2, five slices)' % (2 if q else 3),
             tags=['ok', 'error'])]
    return J


def leafviews(cx, t):
    """Optionally turns the contents of the leaves into string views"""
    if cx.bool('views'):
        for p in nodes_of(t):
            if not p[-1].children:
                x = p[-1]._result
                p[-1]._set_result(StringView('<' + x + '>')[1:1 + len(x)])
    return t


def consistent(cx, n):
    T = tree(cx, '', cx.choice('shape', shapes_upto(n)), names=None, maxlen=2, alphabet=TEXT)
    t = leafviews(cx, build(T))
    pos = cx.int('pos', 0, 3)
    early = cx.choice('read', ['none', 'length', 'content'])
    if early == 'length':
        t.strlen()
    elif early == 'content':
        t.content
    for p in nodes_of(t):
        try:
            p[-1].pos
            cx.fail('position before it has been assigned')
        except AssertionError:
            pass
    r = t.with_pos(pos)
    cx.check(r is t, 'with_pos returns the node')
    P = list(nodes_of(t))
    at = pos
    for p in P:
        nd = p[-1]
        cx.check(nd.pos == at, 'position is the length of everything before', lambda: t.as_sxpr())
        c = nd.content
        e = ''.join(str(x[-1]._result) for x in nodes_of(nd) if not x[-1].children)
        cx.check(c == e and str(nd) == e, 'content is that of the leaves in order')
        cx.check(nd.strlen() == len(e), 'length is the length of the content')
        if not nd.children:
            at += len(e)
    cx.check(t.content == content(T), 'content')
    cx.check(tree_sanity_check(t), 'sane')
    cx.check(t.with_pos(pos) is t, 'assigning the same position again')
    try:
        t.with_pos(pos + 1)
        cx.fail('assigning another position')
    except AssertionError:
        pass
    cx.check(t.pos == pos, 'position unchanged')
    root = RootNode(t)
    cx.check(root.content == t.content and root.strlen() == t.strlen() and root.pos == pos
             and root.name == t.name, 'root node equals the tree')
    cx.check(RootNode(root) is root, 'root node of a root node')
    cx.observe(t.content, at)


def duplicate(cx, n):
    T = tree(cx, '', cx.choice('shape', shapes_upto(n)), alphabet=TEXT)
    t = leafviews(cx, build(T))
    P = list(nodes_of(t))
    k = cx.choice('k', list(range(len(P))))
    if cx.bool('attr'):
        P[k][-1].attr['id'] = cx.str('v', 1, TEXT)
    if cx.bool('positioned'):
        t.with_pos(cx.int('pos', 0, 2))
    if cx.bool('root'):
        t = RootNode(t) if t._pos >= 0 else t
    d = copy.deepcopy(t)
    info = lambda: (t.as_sxpr(), d.as_sxpr())
    cx.check(d.equals(t, False) and t.equals(d, False), 'equal', info)
    cx.check(type(d) is type(t), 'same class')
    A, B = list(nodes_of(t)), list(nodes_of(d))
    cx.check([p[-1]._pos for p in A] == [p[-1]._pos for p in B], 'same positions', info)
    cx.check(not {id(p[-1]) for p in A} & {id(p[-1]) for p in B}, 'no node shared')
    one, two = (d, t) if cx.bool('which') else (t, d)
    before = unbuild(two)
    nd = list(nodes_of(one))[k][-1]
    ch = cx.choice('change', ['result', 'name', 'attr', 'delattr', 'setattr', 'del', 'child'])
    if ch == 'result':
        nd.result = '#'
    elif ch == 'name':
        nd.name = '#'
    elif ch == 'attr':
        nd.attr['new'] = '#'
    elif ch == 'delattr':
        nd.attr.clear()
    elif ch == 'setattr':
        nd.attr['id'] = '#'
    elif ch == 'del':
        if nd.children:
            del nd[0]
    else:
        nd.result = (Node('#', '#'),)
    after = unbuild(two)
    cx.check(same(before, after), 'changing one leaves the other alone',
             lambda: (before, after, ch))
    cx.observe(after)


def replace(cx, n):
    S = shapes_upto(n)
    A = tree(cx, 'a', cx.choice('s1', S), alphabet=TEXT)
    B = tree(cx, 'b', cx.choice('s2', S), alphabet=TEXT)
    a, b = build(A), build(B)
    m = cx.bool('merge')
    aa, ba = cx.bool('aattr'), cx.bool('battr')
    if aa:
        a.attr['p'], a.attr['q'] = '1', '2'
    if ba:
        b.attr['q'], b.attr['r'] = '3', '4'
    pa, pb = cx.bool('apos'), cx.bool('bpos')
    if pa:
        a.with_pos(5)
    if pb:
        b.with_pos(7)
    a.replace_by(b, m)
    cx.check(a.name == B[0] and same(unbuild(a)[:2] + [{}], B), 'name and result replaced')
    e = {'p': '1', 'q': '2'} if aa else {}
    if ba:
        if not m:
            e = {}
        e.update({'q': '3', 'r': '4'})
    cx.check(dict(a.attr) == e, 'attributes', lambda: (aa, ba, m, a.attr))
    cx.check(a._pos == (5 if pa else 7 if pb else -1), 'position', lambda: (pa, pb, a._pos))
    if pa or pb:
        cx.check(all(p[-1]._pos >= 0 for p in nodes_of(a)), 'positions of all nodes assigned')
    cx.check(b.name == B[0] and same(unbuild(b)[:2] + [{}], B), 'replacement untouched')
    cx.observe(a.content)


def parts(cx, n):
    sh = cx.choice('shape', shapes_upto(n))
    T = tree(cx, '', sh, alphabet=TEXT, maxlen=2 if not sh or len(sh) == 1 else 1)
    t = leafviews(cx, build(T))
    sel = cx.choice('select', ['leaf', 'fun', 'any'])
    ign = cx.choice('ignore', ['none', 'a', 'set'])

    def pick(p):
        return not p[-1].children and p[-1].name == 'b'
    select = LEAF_PATH if sel == 'leaf' else pick if sel == 'fun' else (lambda p: True)
    ignore = NO_PATH if ign == 'none' else 'a' if ign == 'a' else {'a'}
    e = ''
    for p in nodes_of(t):
        if not p[-1].children and (sel != 'fun' or p[-1].name == 'b') and \
                (ign == 'none' or not any(x.name == 'a' for x in p)):
            e = e + str(p[-1]._result)
    info = lambda: (t.as_sxpr(), sel, ign, e)
    cx.check(content_of(t, select, ignore) == e, 'content_of', info)
    cx.check(strlen_of(t, select, ignore) == len(e), 'strlen_of', info)
    cx.check(content_of((t,), select, ignore) == e, 'content_of a sequence', info)
    cx.check(strlen_of((t,), select, ignore) == len(e), 'strlen_of a sequence', info)
    cx.observe(e)


def named(cx, m):
    k = cx.choice('m', list(range(m + 1)))
    L = [Node(cx.str('n%d' % i, 1, [(97, 99)], minlen=1), str(i)) for i in range(k)]
    t = Node('t', tuple(L))
    c = cx.choice('crit', ['name', 'set', 'regex', 'function', 'node'])
    which = L[cx.choice('node', list(range(k)))] if c == 'node' and k else Node('a', '')
    crit = {'name': 'a', 'set': {'b', 'a'}, 'regex': re.compile('[02]'),
            'function': lambda nd: nd.name != 'b', 'node': which}[c]
    f = {'name': lambda nd: nd.name == 'a', 'set': lambda nd: nd.name in ('a', 'b'),
         'regex': lambda nd: nd.content in ('0', '2'), 'function': lambda nd: nd.name != 'b',
         'node': lambda nd: nd is which}[c]
    hits = [i for i in range(k) if f(L[i])]
    info = lambda: (t.as_sxpr(), c, hits)
    op = cx.choice('op', ['get', 'set', 'several', 'del', 'contains', 'index', 'surrogate'])
    E, got, want, new, err = list(L), None, None, None, None
    if op == 'get':
        want = None if not hits else L[hits[0]] if len(hits) == 1 else tuple(L[i] for i in hits)
        err = None if hits else KeyError
    elif op == 'set':
        if len(hits) > 1:
            return                  # would put the same node into the tree several times
        new = Node('#', '#')
        err = ValueError if not k else KeyError if not hits else None
        for i in hits:
            E[i] = new
    elif op == 'several':
        n = cx.choice('values', list(range(k + 1)))
        new = [Node('#', 'xyzv'[i]) for i in range(n)]
        err = ValueError if not k or n != len(hits) else None
        if not err:
            for i, nd in zip(hits, new):
                E[i] = nd
    elif op == 'del':
        err = None if hits else KeyError
        E = [L[i] for i in range(k) if i not in hits]
    elif op == 'contains':
        want = bool(hits)
    elif op == 'index':
        a = cx.int('start', 0, m)
        b = cx.int('stop', 1, m + 1)
        cx.assume(a < b)
        H = [i for i in hits if a <= i and i < b]
        err = None if H else ValueError
        want = H[0] if H else None
    else:
        new = cx.choice('surrogate', [Node('s', ''), (), None])
        n = [L[i] for i in hits]
        if new is None:
            want = n[0] if n else None
        elif isinstance(new, tuple):
            want = tuple(n)
        else:
            want = n[0] if n else new
    try:
        if op == 'get':
            got = t[crit]
        elif op in ('set', 'several'):
            t[crit] = new
        elif op == 'del':
            del t[crit]
        elif op == 'contains':
            got = crit in t
        elif op == 'index':
            got = t.index(crit, a, b)
        else:
            got = t.get(crit, new)
        cx.check(err is None, 'an error should have been raised', lambda: (op, info()))
        cx.tag('ok')
    except (KeyError, ValueError) as e:
        cx.check(err is not None and isinstance(e, err), 'kind of error',
                 lambda: (op, info(), repr(e)))
        cx.tag('error')
        E = list(L)
    else:
        if isinstance(want, (Node, type(None))) and op != 'index':
            cx.check(got is want, 'the child', lambda: (op, info()))
        elif isinstance(want, tuple):
            cx.check([id(x) for x in got] == [id(x) for x in want], 'the children',
                     lambda: (op, info()))
        else:
            cx.check(got == want, 'the result', lambda: (op, info(), got, want))
    cx.check(list(t.indices(crit)) == [i for i in range(len(E)) if f(E[i])] or op == 'set',
             'indices', info)
    cx.check([id(x) for x in t.children] == [id(x) for x in E], 'children as in the list',
             lambda: (op, info()))
    e = ''.join(x.content for x in E)
    cx.check(t.content == e and t.strlen() == len(e), 'content and length up to date',
             lambda: (op, info()))
    cx.observe(t.content)


OPS = ['set', 'setslice', 'setname', 'setnames', 'del', 'delslice', 'delname', 'insert', 'remove',
       'remove_other', 'get', 'getslice', 'result']


def listops(cx, m, steps):
    k = cx.choice('m', list(range(m + 1)))
    names = [(97, 98)]
    L = [Node(cx.str('n%d' % i, 1, names, minlen=1), 'xy'[:i % 3]) for i in range(k)]
    t = Node('t', tuple(L))
    positioned = cx.bool('positioned')
    if positioned:
        t.with_pos(3)
    r = None
    for s in range(steps):
        new = Node('a' if steps == 1 else 'b', 'new')
        if not step(cx, t, L, str(s), new, m, positioned and s == 0, steps > 1):
            break
        got = list(t.children)
        cx.check([id(x) for x in got] == [id(x) for x in L], 'children as in the list',
                 lambda: (t.as_sxpr(), [x.name for x in L]))
        e = ''.join(x.content for x in L)
        cx.check(t.content == e and t.strlen() == len(e), 'content and length up to date',
                 lambda: (t.as_sxpr(), t.content))
        r = e
    cx.observe(r)


def step(cx, t, L, key, new, m, positioned, short):
    op = cx.choice('op' + key, [o for o in OPS if not short or not o.startswith('get')])
    idx = lambda: cx.int('i' + key, -2, 2) if short else cx.int('i' + key, -m - 2, m + 2)
    old = {id(x): x._pos for x in L}
    lo, hi = None, None

    def slc():
        if short:
            return slice(*cx.choice('sl' + key, [(None, 1), (1, None), (-1, None), (1, 1), (0, 5)]))
        a = cx.choice('lo' + key, [None] + list(range(-m - 1, m + 2)))
        b = cx.choice('hi' + key, [None] + list(range(-m - 1, m + 2)))
        st = cx.choice('st' + key, [None, 1, -1, 2]) if op in ('delslice', 'getslice') else None
        return slice(a, b, st)
    want, err = None, None
    i = None
    if op in ('set', 'del', 'insert', 'get'):
        i = idx()
        if op == 'insert':
            L.insert(i, new)
        elif not (-len(L) <= i < len(L)):
            err = (ValueError, IndexError) if not L else (IndexError,)
        elif op == 'set':
            L[i] = new
        elif op == 'del':
            del L[i]
        else:
            want = L[i]
    elif op in ('setslice', 'delslice', 'getslice'):
        i = slc()
        if op == 'setslice':
            if not L:
                err = (ValueError,)
            else:
                L[i] = [new]
        elif op == 'delslice':
            del L[i]
        else:
            want = L[i]
    elif op in ('setname', 'setnames', 'delname'):
        hits = [j for j, x in enumerate(L) if x.name == 'a']
        if op == 'setnames':
            if not L or len(hits) != 1:
                err = (ValueError,)
            else:
                L[hits[0]] = new
        elif not hits:
            err = (KeyError, ValueError) if not L else (KeyError,)
        elif op == 'setname':
            if len(hits) > 1:
                return False            # would put the same node into the tree several times
            L[hits[0]] = new
        else:
            for j in reversed(hits):
                del L[j]
    elif op == 'remove':
        if not L:
            err = (ValueError,)
            i = new
        else:
            j = cx.choice('j' + key, list(range(len(L))))
            i = L[j]
            del L[j]
    elif op == 'remove_other':
        err = (ValueError,)
    else:
        L[:] = [new]
    try:
        got = None
        if op in ('set', 'setslice'):
            t[i] = new
        elif op == 'setname':
            t['a'] = new
        elif op == 'setnames':
            t['a'] = [new]
        elif op in ('del', 'delslice'):
            del t[i]
        elif op == 'delname':
            del t['a']
        elif op == 'insert':
            t.insert(i, new)
        elif op == 'remove':
            t.remove(i)
        elif op == 'remove_other':
            t.remove(new)
        elif op == 'result':
            t.result = new
        else:
            got = t[i]
        cx.tag('ok')
        cx.check(err is None, 'an error should have been raised', lambda: (op, i, len(L)))
        if op == 'get':
            cx.check(got is want, 'child with this index')
        elif op == 'getslice':
            cx.check([id(x) for x in got] == [id(x) for x in want], 'children in this slice')
    except (ValueError, KeyError, IndexError) as e:
        cx.tag('error')
        cx.check(err is not None and type(e) in err, 'kind of error', lambda: (op, i, repr(e), err))
    if positioned:
        at = t._pos
        for x in L:
            if x is new:
                cx.check(x._pos == at, 'a new child is positioned after its predecessor',
                         lambda: (t.as_sxpr(), op, i, x._pos, at))
            else:
                cx.check(x._pos == old[id(x)], 'positions of other children are kept')
            at = x._pos + x.strlen()
    return True
