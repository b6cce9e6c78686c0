"""P31: the compiler visits every node once and dispatches by name."""
from hutil import Job, ANY
from treeutil import shapes, shapes_upto, tree, build, unbuild, preorder
from DHParser.nodetree import Node, RootNode, EMPTY_NODE
from DHParser.compile import Compiler, CompilerError, compile_source, NoTransformation
from DHParser.toolkit import re
from DHParser.error import has_errors
from DHParser.parse import Grammar, Text, RegExp, ZeroOrMore, Series

ASSUMPTIONS = ['compiler methods compile the children of their node by fallback_compiler() or not at all',
               'no two children of a node are the same object']

KINDS = ['wild', 'keep', 'cut', 'new', 'none', 'empty', 'value', 'rename']
SPECIAL = ['a', 'b', ':c', ':Text', 'x-y', 'x.y', 'x:y', '!--', 'on_a', 'é', '1', '_', ':-', 'a b', '__', ':a__', 'a\n', '?xml']


def jobs(tier):
    q = tier == 'quick'
    J = []
    m = 4 if q else 5
    for k, w in (('keep', 30), ('new', 30), ('none', 30), ('empty', 30), ('value', 30), ('wild', 30),
                 ('rename', 30), ('cut', 30)):
        J.append(Job('dispatch-' + k, 'dispatch', dict(n=m, kind=k), weight=w, max_paths=400000,
                     bounds='all trees of up to %d nodes with names a, b, :c and arbitrary contents; method of a: '
                            '%s, method of b: any of %s; wildcard() overwritten or not' % (m, k, ', '.join(KINDS))))
    J.append(Job('attrs', 'attrs', dict(n=3 if q else 4), weight=40, max_paths=400000,
                 bounds='all trees of up to %d nodes, attributes k, x:l, m-n on any two nodes; attribute visitors '
                        'that do nothing, delete the attribute, add a child or raise an error' % (3 if q else 4)))
    J.append(Job('name', 'name', dict(n=4 if q else 5), weight=20,
                 bounds='all names of 1..%d characters over a, b, _, :, -, linefeed, \u00e9, \u20ac' % (4 if q else 5)))
    J.append(Job('special', 'special', dict(), weight=10, bounds='the names ' + ' '.join(SPECIAL) +
                 '; any of them on any of two nodes, methods for any of them'))
    J.append(Job('hooks', 'hooks', dict(n=3), weight=10, bounds='all trees of 3 nodes, up to three '
                 'finalizers pushed by any nodes or by a finalizer; error in any method; compiler used twice; '
                 'root node or plain node'))
    J.append(Job('evaluate', 'evaluate', dict(n=4 if q else 5), weight=30, max_paths=400000,
                 bounds='all trees of up to %d nodes, names a, b, with or without joker' % (4 if q else 5)))
    J.append(Job('source', 'source', dict(n=3 if q else 4), weight=20,
                 bounds='all texts of up to %d characters over a, b' % (3 if q else 4)))
    return J


def make_compiler(kinds, events, index, wildcard, forbid):
    """a compiler class with one method for each name in kinds"""
    class C(Compiler):
        def __init__(self):
            super().__init__()
            self.forbid_returning_None = forbid

        def note(self, what, node):
            events.append((what, [index[id(nd)] for nd in self.path], self.path[-1] is node))

    def method(name, kind):
        def keep(self, node):
            self.note(name, node)
            return self.fallback_compiler(node)

        def cut(self, node):
            self.note(name, node)
            return node

        def new(self, node):
            self.note(name, node)
            node = self.fallback_compiler(node)
            self.note(name + '*', node)
            return Node('N', node.result)

        def none(self, node):
            self.note(name, node)
            return None

        def empty(self, node):
            self.note(name, node)
            return EMPTY_NODE

        def value(self, node):
            self.note(name, node)
            return 'value'

        def rename(self, node):
            self.note(name, node)
            node = self.fallback_compiler(node)
            node.name = 'R'
            return node
        return dict(keep=keep, cut=cut, new=new, none=none, empty=empty, value=value, rename=rename)[kind]

    for name, kind in kinds.items():
        if kind != 'wild':
            setattr(C, 'on_' + name, method(name, kind))
    if wildcard:
        def wild(self, node):
            self.note('wildcard', node)
            return self.fallback_compiler(node)
        C.wildcard = wild
    return C


class Stop(Exception):
    pass


def model(T, kinds, method_of, wildcard, forbid, events):
    """what is called and what comes out; T is not changed"""
    count = [0]

    def fallback(T, path, kids):
        if not isinstance(T[1], list):
            return [T[0], T[1], T[2]]
        res, changed = [], False
        for c, k in zip(T[1], kids):
            r = rec(c, path, k)
            if isinstance(r, str):
                raise Stop('TypeError')
            if r is None or r == 'EMPTY' or r[-1] != k[0]:
                changed = True
            res.append(r)
        kept = [r for r in res if r is not None and r != ['EMPTY']] if changed else res
        return [T[0], [r[:3] for r in kept] if kept else '', T[2]]

    def number(T):
        i = count[0]
        count[0] += 1
        return (i, [number(c) for c in T[1]] if isinstance(T[1], list) else [])

    def rec(T, path, k):
        path = path + [k[0]]
        name = method_of(T[0])
        kind = kinds.get(name, 'wild')
        if kind == 'wild':
            if wildcard:
                events.append(('wildcard', path, True))
            return fallback(T, path, k[1]) + [k[0]]
        events.append((name, path, True))
        if kind == 'keep':
            return fallback(T, path, k[1]) + [k[0]]
        if kind == 'cut':
            return [T[0], T[1], T[2], k[0]]
        if kind == 'new':
            r = fallback(T, path, k[1])
            events.append((name + '*', path, True))
            return ['N', r[1], {}, -1]
        if kind == 'none':
            if forbid:
                raise Stop('CompilerError')
            return None
        if kind == 'empty':
            return ['EMPTY']
        if kind == 'value':
            return 'value'
        r = fallback(T, path, k[1])
        return ['R', r[1], r[2], k[0]]
    return rec(T, [], number(T))


def dispatch(cx, n, kind):
    sh = cx.choice('shape', shapes_upto(n))
    size = [0]

    def make(sh):
        i = size[0]
        size[0] += 1
        name = cx.choice('n%d' % i, ['a', 'b'] if i else ['a', 'b', ':c'])
        if sh:
            return [name, [make(c) for c in sh], {}]
        return [name, cx.str('t%d' % i, 1, ANY, minlen=1) if i < 2 else 'x', {}]
    T = make(sh)
    kinds = {'a': kind}
    names = [t[0] for t in preorder(T)]
    if 'b' in names:
        kinds['b'] = cx.choice('kb', KINDS)
    if ':c' in names:
        kinds['c__'] = cx.choice('kc', ['wild', 'keep', 'new'])
    wildcard = cx.bool('wildcard') if 'wild' in kinds.values() else False
    forbid = cx.bool('forbid') if 'none' in kinds.values() else True
    nodes = build(T)
    index = {id(nd): i for i, nd in enumerate(nodes.select_if(lambda nd: True, include_root=True))}
    events, want = [], []
    C = make_compiler(kinds, events, index, wildcard, forbid)
    try:
        expected = model(T, kinds, lambda nm: nm[1:] + '__' if nm[:1] == ':' else nm, wildcard, forbid, want)
        end = 'ok'
    except Stop as e:
        end = e.args[0]
    comp = C()
    info = lambda: (T, kinds, wildcard, forbid)
    if cx.bool('rootnode'):
        index2 = {}
        src = RootNode(nodes)
        index[id(src)] = 0
    else:
        src = nodes
    try:
        if isinstance(src, RootNode):
            r = comp(src)
            cx.check(comp.tree is src, 'the tree', info)
        else:
            r = comp.compile(src)
        cx.check(end == 'ok', 'errors are noticed', lambda: (info(), end))
    except TypeError:
        cx.check(end == 'TypeError', 'TypeError', lambda: (info(), end))
        r = None
    except CompilerError:
        cx.check(end == 'CompilerError', 'CompilerError', lambda: (info(), end))
        r = None
    cx.check(len(events) == len(want), 'number of calls', lambda: (info(), events, want))
    for e, w in zip(events, want):
        cx.check(e == w, 'call of the method with the right path', lambda: (info(), e, w))
    if end == 'ok':
        cx.check(comp.path == [], 'path is clean afterwards', info)
        if expected is None:
            cx.check(r is None, 'result', lambda: (info(), r))
        elif isinstance(expected, str):
            cx.check(r == expected, 'result', lambda: (info(), r))
        elif expected == ['EMPTY']:
            cx.check(r is EMPTY_NODE, 'result', lambda: (info(), r))
        else:
            got = unbuild(r)
            cx.check(got == expected[:3], 'result', lambda: (info(), got, expected[:3]))
    cx.observe(end, len(events))


def attrs(cx, n):
    sh = cx.choice('shape', shapes_upto(n))
    size = [0]
    events = []
    ATTRS = ['k', 'x:l', 'm-n']

    def make(sh):
        i = size[0]
        size[0] += 1
        a = {}
        if i < 2:
            for j, nm in enumerate(ATTRS):
                if cx.bool('a%d%d' % (i, j)):
                    a[nm] = str(i)
        name = cx.choice('n%d' % i, ['a', 'b'])
        return [name, [make(c) for c in sh] if sh else 't', a]
    T = make(sh)
    how = cx.choice('how', ['nothing', 'delete', 'add', 'raise', 'raise attribute'])
    nodes = build(T)
    index = {id(nd): i for i, nd in enumerate(nodes.select_if(lambda nd: True, include_root=True))}

    class C(Compiler):
        def seen(self, attr, node, value):
            events.append((attr, index.get(id(node), -1), value, [index.get(id(nd), -1) for nd in self.path]))
            if how == 'delete':
                del node.attr[attr]
            elif how == 'add':
                node.attr['new'] = 'x'
            elif how == 'raise':
                raise KeyError('visitor')
            elif how == 'raise attribute':
                raise AttributeError('visitor')

        def attr_k(self, node, value):
            self.seen('k', node, value)

        def attr_x_l(self, node, value):
            self.seen('x:l', node, value)

        def on_b(self, node):
            return self.fallback_compiler(node)
    want, paths = [], {}
    count = [0]

    def rec(T, path):
        i = count[0]
        count[0] += 1
        path = path + [i]
        if isinstance(T[1], list):
            for c in T[1]:
                rec(c, path)
        for a in T[2]:
            if a != 'm-n':
                want.append((a, i, T[2][a], path))
    rec(T, [])
    comp = C()
    info = lambda: (T, how, events, want)
    try:
        r = comp.compile(nodes)
        ok = True
    except (KeyError, AttributeError) as e:
        ok = False
    if how in ('raise', 'raise attribute') and want:
        cx.check(not ok, 'errors of visitors are not swallowed', info)
        cx.check(events == want[:1], 'ends with the error', info)
    else:
        cx.check(ok, 'no errors', info)
        cx.check(events == want, 'every attribute is visited once', info)
        cx.check(r is nodes and comp.path == [], 'result', info)

        def after(T):
            a = dict(T[2])
            if how == 'delete':
                a = {k: v for k, v in a.items() if k == 'm-n'}
            elif how == 'add' and any([k != 'm-n' for k in a]):
                a['new'] = 'x'
            return [T[0], [after(c) for c in T[1]] if isinstance(T[1], list) else T[1], a]
        cx.check(unbuild(r) == after(T), 'tree', lambda: (info(), unbuild(r)))
    cx.observe(len(events))


def name(cx, n):
    s = cx.str('s', n, [(97, 98), (58, 58), (45, 45), (95, 95), (10, 10), (0xe9, 0xe9), (0x20ac, 0x20ac)], minlen=1)
    c = Compiler()
    v = c.visitor_name(s)
    cx.check(v[:3] == 'on_', 'prefix', lambda: (s, v))
    cx.check(re.fullmatch(r'\w+', v) is not None, 'can be the name of a method', lambda: (s, v))
    if re.fullmatch(r'\w+', s):
        cx.check(v == 'on_' + s, 'plain names', lambda: (s, v))
    elif s[0] == ':' and (len(s) == 1 or re.fullmatch(r'\w+', s[1:])):
        cx.check(v == 'on_' + s[1:] + '__', 'names of anonymous nodes', lambda: (s, v))
    else:
        # word characters are kept in order
        i = 3
        for ch in s:
            if re.fullmatch(r'\w', ch):
                cx.check(v[i:i + 1] == ch, 'word characters', lambda: (s, v))
                i += 1
            else:
                h = hex(ord(ch))[2:]
                cx.check(v[i:i + len(h)] == h, 'other characters', lambda: (s, v))
                i += len(h)
        cx.check(i == len(v), 'nothing else', lambda: (s, v))
    cx.observe(len(v))


def special(cx):
    nm = [cx.choice('n%d' % i, SPECIAL) for i in range(2)]
    m = cx.choice('m', [None] + SPECIAL)
    events = []

    class C(Compiler):
        def wildcard(self, node):
            events.append(('wild', node.name))
            return self.fallback_compiler(node)
    c = C()
    legacy = cx.bool('legacy') if m is not None and m[0] == ':' and re.fullmatch(r'\w+', m[1:]) else False
    if m is not None:
        def meth(self, node):
            events.append(('meth', node.name))
            return self.fallback_compiler(node)
        mn = 'on_3a' + m[1:] if legacy else c.visitor_name(m)
        setattr(C, mn, meth)
    t = Node(nm[0], (Node(nm[1], 'x'), Node('z', '')))
    r = c.compile(t)
    want = []
    for k in nm + ['z']:
        want.append(('meth' if k == m or m is not None and not legacy and c.visitor_name(k) == c.visitor_name(m)
                     else 'wild', k))
    cx.check(events == want, 'methods', lambda: (nm, m, legacy, events, want))
    if m is not None:
        # different names here have different methods, except for the documented equivalents
        for k in SPECIAL:
            if k != m and c.visitor_name(k) == c.visitor_name(m):
                cx.check({k, m} <= {':a__', 'a____'}, 'different methods', lambda: (k, m))
    cx.observe(len(events))


def hooks(cx, n):
    sh = cx.choice('shape', shapes(n))
    T = tree(cx, '', sh, maxlen=0, names=None)
    events = []
    push = [cx.bool('p%d' % i) for i in range(n)]
    bad = cx.choice('bad', [-1] + list(range(n)) + ['finalizer', 'finalize', 'prepare'])
    again = cx.bool('again')
    more = cx.bool('more')

    class C(Compiler):
        def reset(self):
            super().reset()
            self.count = 0

        def prepare(self, root):
            events.append('prepare')
            self.ok = self.path == [] and root is self.tree and self.finalizers == [] and self.count == 0
            if bad == 'prepare' and not self.healthy:
                raise KeyError('prepare')

        def wildcard(self, node):
            i = self.count
            self.count += 1
            events.append(i)
            if bad == i and not self.healthy:
                raise KeyError('bad')
            if push[i]:
                self.finalizers.append((self.fin, (i,)))
            return self.fallback_compiler(node)

        def fin(self, i):
            events.append(('fin', i))
            if bad == 'finalizer' and not self.healthy:
                raise KeyError('fin')
            if more and i == 0:
                self.finalizers.append((self.fin, (7,)))

        def finalize(self, result):
            events.append('finalize')
            if bad == 'finalize' and not self.healthy:
                raise KeyError('finalize')
            super().finalize(result)
            return ('final', result)
    c = C()
    c.healthy = False
    fins = []
    for i in range(n):
        if push[i]:
            fins.insert(0, ('fin', i))
    if push[0] and more:
        fins.insert(fins.index(('fin', 0)) + 1, ('fin', 7))
    want = ['prepare'] + list(range(n)) + fins + ['finalize']
    root = cx.bool('root')
    info = lambda: (T, push, bad, again, more, events)

    def run():
        events.clear()
        t = build(T)
        if root:
            t = RootNode(t)
            t.stage = 'x'
        r = c(t)
        cx.check(events == want, 'order', lambda: (info(), want))
        cx.check(c.ok, 'clean start', info)
        cx.check(r[0] == 'final' and isinstance(r[1], RootNode) and (r[1] is t or not root), 'result', info)
        cx.check(unbuild(r[1]) == T, 'tree', info)
        cx.check(r[1].stage == '' and not r[1].errors, 'stage', info)
    if bad == -1 or bad == 'finalizer' and not fins:
        run()
    else:
        try:
            run()
            cx.fail('exceptions are passed on', info())
        except KeyError:
            pass
        k = len(events)
        cx.check(events == want[:k], 'order', info)
    c.healthy = True
    run()
    if again:
        run()
    cx.observe(len(want))


def evaluate(cx, n):
    sh = cx.choice('shape', shapes_upto(n))
    T = tree(cx, '', sh, maxlen=1, alphabet=[(97, 98)])
    nodes = build(T)
    joker = cx.bool('joker')
    withb = cx.bool('withb')
    calls = []

    def act(nm):
        def f(*args):
            calls.append(nm)
            return nm + '(' + ','.join(args) + ')'
        return f

    def actp(nm):
        def f(path, *args):
            calls.append(nm)
            return nm + str(len(path)) + '(' + ''.join([nd.name for nd in path]) + ',' + ','.join(args) + ')'
        return f
    keys = ['a'] + (['b'] if withb else []) + (['*'] if joker else [])

    def want(T, path):
        key = T[0] if T[0] in keys else '*'
        if key not in keys:
            raise KeyError(T[0])
        path = path + T[0]
        if isinstance(T[1], list):
            args = [want(c, path) for c in T[1]]
        else:
            args = [(T[1], T[1])]
        return (key + '(' + ','.join([a[0] for a in args]) + ')',
                key + str(len(path)) + '(' + path + ',' + ','.join([a[1] for a in args]) + ')')
    for p in (0, 1):
        try:
            w = want(T, '')[p]
        except KeyError:
            w = 'missing'
        try:
            if p:
                g = nodes.evaluate_path({k: actp(k) for k in keys})
            else:
                g = nodes.evaluate({k: act(k) for k in keys})
        except KeyError:
            g = 'missing'
        cx.check(g == w, 'value', lambda: (T, keys, p, g, w))
    cx.check(unbuild(nodes) == T, 'tree is unchanged', lambda: T)
    cx.observe(len(calls))


class G(Grammar):
    a = Text('a')
    b = Text('b')
    start = ZeroOrMore(Series(a, b))
    root__ = start


def source(cx, n):
    s = cx.str('s', n, [(97, 98)], minlen=1)
    keep = cx.bool('keep')
    text = s + '\n'
    good = re.fullmatch('(?:ab)+', s) is not None
    calls = []

    class T(Compiler):
        def on_a(self, node):
            calls.append('ta')
            node.result = 'A'
            return node

    class C(Compiler):
        def on_a(self, node):
            calls.append('ca')
            node.result = node.content + 'C'
            return node

        def on_start(self, node):
            self.fallback_compiler(node)
            return node.content

    class Gn(G):
        pass
    gr = lambda src, *args: G()(s)
    tr = T()
    r = compile_source(text, None, gr, tr, C(), preserve_AST=keep)
    k = len(s) // 2
    cx.check(has_errors(r.messages) != good, 'errors', lambda: (s, r.messages))
    if good:
        cx.check(r.result == 'ACb' * k, 'result', lambda: (s, r.result))
        cx.check(calls == ['ta'] * k + ['ca'] * k, 'order', lambda: (s, calls))
        if keep:
            cx.check(r.AST.content == 'Ab' * k, 'AST is preserved', lambda: (s, r.AST.content))
        else:
            cx.check(r.AST is None, 'no AST')
    cx.observe(good)
