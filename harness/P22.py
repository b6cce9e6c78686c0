"""P22: compilation pipelines equal the composition of their stages."""
from hutil import Job
from treeutil import shapes_upto, tree, build, unbuild
from DHParser.nodetree import Node, RootNode
from DHParser.error import Error, ErrorCode, ERROR, FATAL, WARNING, CANCELED, has_errors, is_fatal
from DHParser.parse import Grammar, Series, Text, RegExp, ZeroOrMore, mixin_comment
from DHParser.compile import process_tree, compile_source, Compiler
from DHParser.pipeline import (Junction, run_pipeline, full_pipeline, end_points, connection, as_paths,
                               as_graph, extract_data, create_junction)
from DHParser.toolkit import re

ASSUMPTIONS = ['junctions form a tree (every stage has one incoming junction)',
               'stages change the tree they are given in place or return other data']

CODES = [0, 100, 1000, 10000]


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = 4 if q else 5
    J.append(Job('shape', 'shape', dict(n=n), weight=60, max_paths=400000,
                 bounds='all trees of junctions with %d stages behind the first one, all sets of targets; '
                        'arbitrary content' % n))
    J.append(Job('given', 'shape', dict(n=3 if q else 4, given=True), weight=60, max_paths=400000,
                 bounds='all trees of junctions with %d stages, any other stage given as a second source' % (3 if q else 4)))
    for k in ('code', 'raise', 'data', 'cancel'):
        J.append(Job('outcome-' + k, 'outcome', dict(n=3 if q else 4, kind=k), weight=90, max_paths=400000,
                     bounds='all trees of junctions with %d stages, all sets of targets, up to two stages with a '
                            'special outcome (%s)' % (3 if q else 4, k)))
    J.append(Job('names', 'names', dict(), weight=10, bounds='upper and lower case spelling of CST and AST '
                 'in junctions, sources and targets; stage names set by none, some or all stages'))
    J.append(Job('graph', 'graph', dict(n=4 if q else 5), weight=30, max_paths=400000,
                 bounds='all trees of junctions with up to %d stages behind the first one' % (4 if q else 5)))
    J.append(Job('process', 'process', dict(), weight=10, bounds='any severity of earlier errors, processors '
                 'that return, fail or add errors'))
    J.append(Job('full', 'full', dict(n=3 if q else 4), weight=90, max_paths=400000,
                 bounds='all texts of up to %d characters over a, b, newline; two stages; all targets; '
                        'preprocessor with or without error' % (3 if q else 4)))
    return J


NAMES = ['CST', 'AST', 'dom', 'out', 'txt', 'pdf']


def code_of(x):
    return ErrorCode(int(x))


class Stage:
    """a stage appends its letter, records its call and behaves as told"""
    def __init__(self, cx, k, how, log):
        self.cx, self.k, self.how, self.log = cx, k, how, log

    def __call__(self, tree):
        self.log.append(self.k)
        before = tree.content
        for nd in tree.select_if(lambda nd: not nd._children, include_root=True):
            nd.result = nd.content + str(self.k)
        tree.attr['s%d' % self.k] = before
        if self.how in CODES and self.how:
            tree.new_error(tree, 'stage %d' % self.k, code_of(self.how + self.k))
        if self.how == 'raise':
            raise RuntimeError('stage %d' % self.k)
        if self.how == 'data':
            return ('data', tree.content)
        return tree


def factory(stage):
    def f():
        return stage
    f.__name__ = 'factory_%d' % stage.k
    return f


def graph_of(cx, n):
    """parents of the stages 1..n, all trees with increasing labels"""
    return [None] + [cx.choice('p%d' % k, list(range(k))) for k in range(1, n + 1)]


def route(parents, k, sources):
    r = []
    while k not in sources:
        r.append(k)
        k = parents[k]
    return k, r[::-1]


def junctions_of(cx, parents, hows, log, order):
    J = [Junction(NAMES[parents[k]], factory(Stage(cx, k, hows[k], log)), NAMES[k])
         for k in range(1, len(parents))]
    return J[::-1] if order else J


def source(text):
    return RootNode(Node('doc', (Node('a', text), Node('b', ''))).with_pos(0))


def show(t):
    return t.as_sxpr() if isinstance(t, Node) else t


def shape(cx, n, given=False):
    parents = graph_of(cx, n)
    log = []
    J = junctions_of(cx, parents, [0] * (n + 1), log, cx.bool('order'))
    targets = [k for k in range(n + 1) if cx.bool('t%d' % k)]
    text = cx.str('text', 1, [(97, 98)])
    src = {0: source(text)}
    if given:
        g = cx.choice('g', list(range(1, n + 1)))
        src[g] = source(text + 'g')
    named = cx.bool('named')
    if named:
        for k, t in src.items():
            t.stage = NAMES[k]
    r = run_pipeline(J, {NAMES[k]: t for k, t in src.items()}, {NAMES[k] for k in targets})
    info = lambda: (parents, targets, text)
    for k in targets:
        cx.check(NAMES[k] in r, 'target reached', lambda: (info(), k, list(r)))
        s, way = route(parents, k, src)
        want = source(text + ('g' if s else ''))
        for j in way:
            for nd in want.select_if(lambda nd: not nd._children, include_root=True):
                nd.result = nd.content + str(j)
        got, errs = r[NAMES[k]]
        cx.check(isinstance(got, RootNode), 'a tree', lambda: (info(), k))
        cx.check(got.content == want.content, 'composition of the stages',
                 lambda: (info(), k, show(got), show(want)))
        cx.check([c.content for c in got.children] == [c.content for c in want.children], 'same parts',
                 lambda: (info(), k, show(got)))
        cx.check(errs == [], 'no errors', lambda: (info(), k, errs))
        if way:
            cx.check(got.stage == (NAMES[k] if named else ''), 'name of the stage', lambda: (info(), k, got.stage))
    # targets do not share nodes
    ids = [id(nd) for k in targets for nd in r[NAMES[k]][0].select_if(lambda nd: True, include_root=True)]
    cx.check(len(set(ids)) == len(ids), 'targets are independent', info)
    # every stage that is needed runs exactly once
    need = []
    for k in targets:
        for j in route(parents, k, src)[1]:
            if j not in need:
                need.append(j)
    cx.check(sorted(log) == sorted(need), 'every stage once', lambda: (info(), log, need))
    for i, j in enumerate(log):
        cx.check(parents[j] in src or parents[j] in log[:i], 'order', lambda: (info(), log))
    cx.observe(sorted(log))


def outcome(cx, n, kind):
    parents = graph_of(cx, n)
    log = []
    hows = [0] * (n + 1)
    a = cx.choice('a', list(range(1, n + 1)))
    b = cx.choice('b', list(range(a, n + 1)))
    queried = [0]
    cancel = None
    if kind == 'code':
        for k in {a, b}:
            hows[k] = cx.choice('h%d' % k, CODES[1:])
    elif kind == 'cancel':
        lim = a

        def cancel():
            return len(log) >= lim
        if b > a:
            hows[b] = 100
    else:
        hows[a] = cx.choice('h%d' % a, CODES[1:3]) if b > a else 0
        hows[b] = kind
    J = junctions_of(cx, parents, hows, log, False)
    targets = [k for k in range(1, n + 1) if cx.bool('t%d' % k)]
    src = source('x')
    early = cx.bool('early')
    if early:
        src.new_error(src, 'from parsing', code_of(1050))
    info = lambda: (parents, hows, targets, early, list(log))
    try:
        r = run_pipeline(J, {'CST': src}, {NAMES[k] for k in targets}, cancel_query=cancel)
        done = 'ok'
    except RuntimeError:
        done = 'raised'
    except ValueError:
        done = 'no tree'

    def before(k):           # outcomes of the stages before k on its route
        return [hows[j] for j in route(parents, parents[k], [0])[1]]

    need = []
    for k in targets:
        for j in route(parents, k, [0])[1]:
            if j not in need:
                need.append(j)
    def severe(k, level):
        return any([h in CODES and h >= level for h in before(k)]) or early and level <= 1000
    if kind == 'raise' and b in need and b in log and not severe(b, 1000):
        cx.check(done == 'raised', 'exceptions without earlier errors are passed on', lambda: (info(), done))
        return
    cx.check(done != 'raised', 'exceptions after errors are turned into errors', lambda: (info(), done))
    if done == 'no tree':
        cx.check(kind == 'data' and any([parents[k] == b for k in need]), 'only trees can be processed further', info)
        return
    if kind == 'data' and any([parents[k] == b for k in need]):
        cx.check(is_fatal_any(r), 'data cannot be processed', info)
    # stages do not run behind fatal errors
    for k in log:
        for h in before(k):
            cx.check(h in CODES and h < 10000, 'no stage behind a fatal error', info)
        cx.check(not any([hows[j] == 'raise' for j in route(parents, parents[k], [0])[1]]),
                 'no stage behind a crash', info)
    fatal = any([hows[k] == 10000 or hows[k] == 'raise' for k in log]) or cancel is not None and cancel()
    if not fatal:
        cx.check(sorted(log) == sorted(need), 'every stage once', info)
    cx.check(len(set(log)) == len(log), 'every stage at most once', info)
    # all errors are reported
    for k in log:
        e = 'stage %d' % k
        if hows[k] != 0 and hows[k] != 'data':
            if NAMES[k] in r:
                errs = r[NAMES[k]][1]
                cx.check(len([x for x in errs if e in x.message]) == 1, 'errors of the stage', lambda: (info(), k, errs))
            cx.check(any([e in x.message for v in r.values() for x in v[1]]), 'all errors are reported',
                     lambda: (info(), k, r))
    for k in targets:
        if NAMES[k] in r:
            got, errs = r[NAMES[k]]
            way = route(parents, k, [0])[1]
            ran = [j for j in way if j in log]
            msgs = [x.message for x in errs]
            want = (['from parsing'] if early else []) + ['stage %d' % j for j in ran if hows[j] in CODES and hows[j]]
            got_msgs = [m for m in msgs if m[:6] == 'stage ' or m == 'from parsing']
            cx.check(sorted(got_msgs) == sorted(want), 'errors of the stages on the way', lambda: (info(), k, msgs, want))
            if len(ran) == len(way) and not any([hows[j] == 'raise' for j in way]):
                text = 'x' + ''.join([str(j) for j in way]) + ''.join([str(j) for j in way])
                if hows[k] == 'data':
                    cx.check(got == ('data', text), 'data', lambda: (info(), k, got))
                elif isinstance(got, RootNode):
                    cx.check(got.content == text, 'composition of the stages', lambda: (info(), k, show(got)))
                else:
                    cx.fail('a tree', (info(), k, got))
            else:
                cx.check(got is None, 'no result', lambda: (info(), k, show(got)))
        else:
            cx.check(fatal, 'targets are missing only after fatal errors', lambda: (info(), k))
    if cancel is not None and cancel() and log:
        cx.check(any([x.code == CANCELED for v in r.values() for x in v[1]]), 'cancellation is reported', info)
    if cancel is not None and len(log):
        cx.check(len(log) <= a, 'canceled in time', info)
    cx.observe(sorted(log))


def is_fatal_any(r):
    return any([x.code >= 10000 for v in r.values() for x in v[1]])


def names(cx):
    def sp(nm, s):
        return s.lower() if cx.bool(nm) else s
    log = []
    setter = [cx.bool('set%d' % k) for k in range(3)]

    class Named(Stage):
        def __call__(self, tree):
            if setter[self.k]:
                tree.stage = sp_dst[self.k]
            return Stage.__call__(self, tree)
    sp_dst = {1: sp('d1', 'AST'), 2: 'out'}
    J = {Junction(sp('j1', 'CST'), factory(Named(cx, 1, 0, log)), sp('j2', 'AST')),
         Junction(sp('j3', 'AST'), factory(Named(cx, 2, 0, log)), 'out')}
    t = source('x')
    if setter[0]:
        t.stage = sp('st', 'CST')
    targets = {sp('t1', 'AST'), 'out'} if cx.bool('both') else {'out'}
    r = run_pipeline(J, {sp('s', 'CST'): t}, targets)
    cx.check(r['out'][0].content == 'x1212', 'composition', lambda: show(r['out'][0]))
    if len(targets) == 2:
        cx.check(r['AST'][0].content == 'x11', 'composition', lambda: show(r['AST'][0]))
    # a wrong stage is noticed
    w = source('x')
    w.stage = 'dom'
    try:
        run_pipeline(J, {'CST': w}, targets)
        ok = True
    except AssertionError:
        ok = False
    cx.check(not ok, 'wrong stage')
    try:
        run_pipeline(J, {'CST': source('x')}, {'nowhere'})
        ok = True
    except AssertionError:
        ok = False
    cx.check(not ok, 'unknown target')
    cx.observe(len(targets))


def graph(cx, n):
    n = cx.choice('n', list(range(1, n + 1)))
    parents = graph_of(cx, n)
    J = set(junctions_of(cx, parents, [0] * (n + 1), [], cx.bool('order')))
    leaves = [k for k in range(1, n + 1) if k not in parents]
    cx.check(end_points(J) == {NAMES[k] for k in leaves}, 'end points', lambda: parents)
    cx.check(end_points([tuple(j) for j in J]) == {NAMES[k] for k in leaves}, 'end points', lambda: parents)
    P = as_paths(J)
    cx.check(set(P) == {NAMES[k] for k in leaves}, 'paths', lambda: (parents, P))
    for k in range(1, n + 1):
        way = [NAMES[j] for j in [0] + route(parents, k, [0])[1]]
        if k in leaves:
            cx.check(P[NAMES[k]] == way, 'path', lambda: (parents, P))
        c = connection(J, NAMES[k], 'CST')
        cx.check([j.src for j in c] + [c[-1].dst] == way, 'connection', lambda: (parents, k, c))
        o = cx.choice('o', list(range(n + 1))) if k == n else 0
        if o:
            try:
                c = connection(J, NAMES[k], NAMES[o])
                cx.check(NAMES[o] in way and [j.dst for j in c] == way[way.index(NAMES[o]) + 1:], 'connection',
                         lambda: (parents, k, o, c))
            except ValueError:
                cx.check(NAMES[o] not in way, 'no connection', lambda: (parents, k, o))

    def sub(k):
        ch = [sub(j) for j in range(1, n + 1) if parents[j] == k]
        return (NAMES[k], sorted(ch), max([c[2] for c in ch] + [0]) + 1)

    def plain(t):
        return (t.src, sorted([plain(d) for d in t.desc]), t.depth)
    cx.check(plain(as_graph(J)) == sub(0), 'graph', lambda: (parents, plain(as_graph(J)), sub(0)))
    cx.observe(n)


def process(cx):
    t = source('x')
    early = cx.choice('early', [0, 1, 99, 100, 999, 1000, 1001, 9999, 10000, 10001, 20000])
    if early:
        t.add_error(t, Error('early', 0, code_of(early)))
    how = cx.choice('how', ['ok', 'raise', 'data'])

    def proc(tree):
        if how == 'raise':
            raise RuntimeError('oops')
        return tree if how == 'ok' else 5
    n = len(t.errors)
    try:
        r = process_tree(proc, t)
    except RuntimeError:
        cx.check(how == 'raise' and early < 1000, 'exceptions without errors are passed on', lambda: early)
        return
    if early >= 10000:
        cx.check(r is None and len(t.errors) == n, 'nothing is done after fatal errors', lambda: early)
    elif how == 'raise':
        cx.check(early >= 1000 and r is None and len(t.errors) == n + 1, 'exceptions become errors', lambda: early)
        cx.check(t.error_flag >= 10000, 'crash is fatal')
    else:
        cx.check(r is t if how == 'ok' else r == 5, 'result', lambda: (early, how))
    cx.check(extract_data(r) == (t.data if r is t else r), 'data')
    cx.observe(len(t.errors))


class G(Grammar):
    item = Text('a')
    root = Series(item, ZeroOrMore(RegExp(r'[b\n]')))
    root__ = root


class ToAST(Compiler):
    def on_item(self, node):
        node.result = 'A'
        return node

    def finalize(self, result):
        return result


class ToOut(Compiler):
    def on_root(self, node):
        return ('out', node.content)


def full(cx, n):
    text = '\n' + cx.str('s', n, [(97, 98), (10, 10)])
    pre_err = cx.choice('pe', [0, 100, 10000])

    def prep(txt, name):
        from DHParser.preprocess import PreprocessorResult, gen_neutral_srcmap_func
        return PreprocessorResult(txt, txt[1:], gen_neutral_srcmap_func(txt, name),
                                  [Error('prep', 0, code_of(pre_err))] if pre_err else [])
    prep_factory = lambda: prep
    J = {create_junction(ToAST, 'CST', 'AST'), create_junction(ToOut, 'AST', 'out')}
    targets = [t for t in ('CST', 'AST', 'out') if cx.bool('t' + t)]
    r = full_pipeline(text, prep_factory, G, J, set(targets))
    body = text[1:]
    good = re.fullmatch(r'a[b\n]*', body) is not None
    empty = body == ''
    if pre_err == 10000:
        for t in targets:
            cx.check(r[t][0] is None and len(r[t][1]) == 1, 'fatal errors in preprocessing', lambda: (text, r))
        return
    cst = G()(body)
    for t in targets:
        cx.check(t in r, 'target', lambda: (text, t))
        got, errs = r[t]
        msgs = [e.message for e in errs]
        cx.check((len([m for m in msgs if m != 'prep']) == 0) == good, 'errors of parsing', lambda: (text, t, msgs))
        cx.check(len([m for m in msgs if m == 'prep']) == (1 if pre_err else 0), 'errors of preprocessing',
                 lambda: (text, t, msgs))
        if good:
            want = body if t == 'CST' else 'A' + body[1:]
            if t == 'out':
                cx.check(got == ('out', want), 'result', lambda: (text, t, got))
            else:
                cx.check(got.content == want and got.stage.lower() == t.lower(), 'result',
                         lambda: (text, t, show(got), got.stage))
        elif t == 'CST':
            cx.check(got.equals(cst), 'parse tree', lambda: (text, show(got), show(cst)))
    cx.observe([t for t in targets])
