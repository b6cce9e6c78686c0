"""P21: the error registry loses no error, keeps order, and reports the right severity."""
from hutil import Job
from treeutil import shapes_upto, nodes_of
from DHParser.nodetree import Node, RootNode
from DHParser.error import (Error, ErrorCode, NOTICE, WARNING, ERROR, FATAL, has_errors, only_errors,
                            is_fatal, is_error, is_warning, error_category, MANDATORY_CONTINUATION,
                            PARSER_STOPPED_BEFORE_END)

ASSUMPTIONS = ['two errors are the same, if they have the same code and position (see Error.__eq__)',
               'nodes that have been removed from the tree are still alive']

CODES = [ErrorCode(50), ErrorCode(120), ErrorCode(1010), ErrorCode(10100)]


def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    b = 'all trees with 1..%d nodes, leaves of 0..2 characters; '
    return [
        Job('add', 'add', dict(n=2 if q else 3, k=2, kind='add', lens=3), weight=30, max_paths=400000,
            bounds=b % (2 if q else 3) + 'two errors at any position on any node or on none, one of which '
            'may be removed from the tree'),
        Job('add-deep', 'add', dict(n=3, k=2, kind='add', lens=2, codes=1), weight=30, max_paths=400000,
            bounds=b % 3 + 'two errors of the same kind'),
        Job('add-3', 'add', dict(n=2 if q else 3, k=3, kind='add', codes=1 if q else 2, lens=2), weight=20,
            max_paths=400000,
            bounds=b % (2 if q else 3) + 'three errors at any position on any node or on none'),
        Job('transfer', 'add', dict(n=3, k=1, kind='transfer', codes=1, lens=2), weight=30, max_paths=400000,
            bounds=b % 3 + 'one error at any position on any node; errors transferred '
            'from any node to any other, one node may be removed from the tree'),
        Job('transfer-2', 'add', dict(n=2 if q else 3, k=2, kind='transfer', codes=2, lens=2), weight=30,
            max_paths=400000,
            bounds=b % (2 if q else 3) + 'two errors at any position on any node; errors transferred '
            'from any node to any other, one node may be removed from the tree'),
        Job('swallow', 'swallow', dict(n=2 if q else 3, k=2), weight=10, max_paths=400000,
            bounds=b % (2 if q else 3) + 'errors added before the tree is connected to the root-node'),
        Job('limit', 'limit', dict(k=3 if q else 4), weight=10, max_paths=400000,
            bounds='up to %d errors of two types, limit -1..3, on any of 3 nodes' % (3 if q else 4)),
        Job('levels', 'levels', dict(), weight=5, bounds='up to 3 errors with arbitrary codes 0..20000, '
            'arbitrary level')]


def make(cx, n, lens=3):
    sh = cx.choice('shape', shapes_upto(n))
    cnt = [0]

    def rec(s):
        cnt[0] += 1
        name = 'n%d' % cnt[0]
        if s:
            return Node(name, tuple([rec(c) for c in s]))
        return Node(name, 'xy'[:cx.choice(name, [1, 0, 2][:lens])])
    return rec(sh).with_pos(0)


def names(nd):
    return [p[-1] for p in nodes_of(nd)]


class Model:
    """what the registry ought to know"""

    def __init__(self):
        self.errors = []      # in order
        self.at = []          # (error, node, registered at this position)

    def add(self, err, node):
        for e in self.errors:
            if e.code == err.code and e.pos == err.pos:
                return False
        self.errors.append(err)
        end = node._pos + max(node.strlen(), 1)
        self.at.append((err, node, node._pos <= err.pos and err.pos <= end))
        return True

    def transfer(self, a, b):
        if a is not b:
            self.at = [(e, b if nd is a else nd, r) for e, nd, r in self.at]


def verify(cx, root, M, info):
    E = root.errors
    cx.check(len(E) == len(M.errors) and all(a is b for a, b in zip(E, M.errors)),
             'every distinct error once, in the order of addition', info)
    S = root.errors_sorted
    cx.check(len(S) == len(E) and all(any(a is b for b in E) for a in S), 'sorted list complete', info)
    for a, b in zip(S, S[1:]):
        ia = [i for i, e in enumerate(E) if e is a][0]
        ib = [i for i, e in enumerate(E) if e is b][0]
        cx.check(a.pos < b.pos or (a.pos == b.pos and ia < ib), 'sorted by position', info)
    flag = 0
    for e in M.errors:
        if e.code > flag:
            flag = e.code
    cx.check(root.error_flag == flag, 'overall severity', info)
    cx.check(has_errors(E) == (flag >= 1000), 'has_errors', info)
    cx.check(is_fatal(root.error_flag) == (flag >= 10000), 'is_fatal', info)
    # attribution
    A = {}
    for e, nd, r in M.at:
        A.setdefault(id(nd), []).append(e)
    got = {i: L for i, L in root.error_nodes.items() if L}
    cx.check(sorted(got) == sorted(A) and all(same_set(got[i], A[i]) for i in A),
             'each error belongs to its node and only to that', info)
    alive = names(root)
    for nd in alive:
        R = root.node_errors(nd)
        inside = lambda e: nd._pos <= e.pos and e.pos < nd._pos + max(nd.strlen(), 1)
        must, may = [], []
        for e, x, r in M.at:
            if x is nd or (nd.children and not any(x is y for y in alive)):
                may.append(e)
                if r and inside(e):
                    must.append(e)
        det = lambda: (info(), nd.name, [str(e) for e in R], [str(e) for e in must])
        cx.check(all(any(e is f for f in R) for e in must), 'errors of a node', det)
        cx.check(all(any(e is f for f in may) for e in R), 'no errors of other nodes', det)
        cx.check(len(R) == len(set(id(e) for e in R)), 'no error twice', det)


def same_set(a, b):
    return len(a) == len(b) and all(any(x is y for y in b) for x in a)


def add(cx, n, k, kind, codes=4, lens=3):
    root = RootNode(make(cx, n, lens))
    L = names(root)
    total = root.strlen()
    M = Model()
    keep = list(L)
    log = []
    info = lambda: (root.as_sxpr(), log)
    for i in range(k):
        j = cx.choice('node%d' % i, list(range(len(L))) + ([-1] if kind == 'add' else []))
        code = cx.choice('code%d' % i, CODES[:codes])
        if kind == 'transfer' and cx.bool('new%d' % i):
            err = Error('e%d' % i, L[j]._pos, code)
            root.new_error(L[j], 'e%d' % i, code)
            known = [e for e in root.errors if e.code == err.code and e.pos == err.pos]
            err = known[0] if known else err
            nd = L[j]
        else:
            lo = 0 if j < 0 else L[j]._pos
            pos = cx.int('pos%d' % i, lo, total)
            err = Error('e%d' % i, pos, code)
            nd = L[j] if j >= 0 else None
            root.add_error(nd, err)
            if nd is None:
                lv = [p[-1] for p in nodes_of(root) if not p[-1].children]
                hit = [x for x in lv if x._pos <= pos and pos < x._pos + x.strlen()]
                if hit:
                    nd = hit[0]
                else:      # no leaf at this position: any node will do
                    own = [x for x in keep if any(e is err for e in root.error_nodes.get(id(x), []))]
                    dup = any(e.code == code and e.pos == pos for e in M.errors)
                    cx.check(dup or len(own) == 1, 'attributed to a node of the tree', info)
                    nd = own[0] if own else root
        M.add(err, nd)
        log.append((nd.name, err.pos, int(code)))
        cx.check(root.error_flag >= code, 'severity', info)
    if kind == 'transfer':
        for i in range(1):
            a = cx.choice('src%d' % i, list(range(len(L))))
            b = cx.choice('dest%d' % i, list(range(len(L))))
            root.transfer_errors(L[a], L[b])
            M.transfer(L[a], L[b])
            log.append((a, b))
    if len(L) > 1 and (kind == 'add' and k == 2 or kind == 'transfer') and cx.bool('drop'):
        parents = [nd for nd in L if nd.children]
        p = cx.choice('parent', list(range(len(parents))))
        c = cx.choice('child', list(range(len(parents[p].children))))
        ch = parents[p].children
        if len(ch) > 1:
            parents[p].result = ch[:c] + ch[c + 1:]
            log.append(('dropped', ch[c].name))
    verify(cx, root, M, info)
    cx.observe([str(e) for e in root.errors_sorted])


def swallow(cx, n, k):
    """errors are registered while the tree is being built"""
    t = make(cx, n)
    L = names(t)
    root = RootNode()
    M = Model()
    log = []
    for i in range(k):
        j = cx.choice('node%d' % i, list(range(len(L))))
        code = cx.choice('code%d' % i, CODES[1:3])
        err = Error('e%d' % i, cx.int('pos%d' % i, L[j]._pos, L[j]._pos + L[j].strlen() + 1), code)
        root.add_error(L[j], err)
        M.add(err, L[j])
        log.append((L[j].name, err.pos, int(code)))
    total = t.strlen()
    root.swallow(t, 'x' * (total + 2))
    M.transfer(t, root)
    info = lambda: (root.as_sxpr(), log)
    verify(cx, root, M, info)
    for e in root.errors:
        cx.check(e.line == 1 and e.column == e.pos + 1, 'source location', info)
    cx.check(root.did_match(), 'did match', info)
    cx.observe(len(root.errors))


def limit(cx, k):
    root = RootNode(Node('a', (Node('b', 'x'), Node('c', 'y'), Node('d', 'z'))).with_pos(0))
    nds = root.children
    lim = cx.choice('limit', [-1, 1, 2, 3])
    kept, suppressed = [], 0
    log = []
    for i in range(k):
        j = cx.choice('node%d' % i, [0, 1, 2])
        code = CODES[cx.choice('code%d' % i, [1, 2])]
        n = len([e for e in kept if e[1] == code])
        root.new_error(nds[j], 'm', code, limit=lim)
        log.append((j, int(code)))
        if (j, code) in kept:
            continue
        if lim >= 1 and n >= lim:
            suppressed += 1
        else:
            kept.append((j, code))
    info = lambda: (lim, log, [str(e) for e in root.errors])
    cx.check([(e.pos, e.code) for e in root.errors] == kept, 'limit per type of error', info)
    hints = [e for e in root.errors if len(e.message) > 1]
    for code in CODES[1:3]:
        E = [e for e in root.errors if e.code == code]
        H = [e for e in hints if e.code == code]
        cx.check(len(H) <= 1 and (not H or len(E) == lim), 'hint', info)
        for e in H:
            cx.check(e.message.count('suppressed') == 1, 'one hint', info)
    cx.check(not suppressed or bool(hints), 'hint about suppressed errors', info)
    cx.observe(len(root.errors))


def levels(cx):
    root = RootNode(Node('a', 'x').with_pos(0))
    C = []
    for i in range(cx.choice('k', [0, 1, 2, 3])):
        c = cx.int('c%d' % i, 0, 20000)
        code = ErrorCode(0) if False else c
        C.append(code)
    lev = cx.int('lev', 0, 20000)
    E = []
    for c in C:
        e = Error('m', 0, ErrorCode(7))
        e.code = c
        E.append(e)
    cx.check(has_errors(E, lev) == any([c >= lev for c in C]), 'has_errors', lambda: (C, lev))
    cx.check([e.code for e in only_errors(E, lev)] == [c for c in C if c >= lev], 'only_errors', lambda: (C, lev))
    for e in E:
        c = e.code
        cx.check(is_fatal(c) == (c >= 10000) and is_error(c) == (c >= 1000)
                 and is_warning(c) == (c < 1000), 'categories', lambda: c)
        cx.check(is_fatal(e) == is_fatal(c) and is_error(e) == is_error(c)
                 and is_warning(e) == is_warning(c) and error_category(e) == error_category(c),
                 'error or code', lambda: c)
        cat = 'no errors' if c < 1 else 'notices' if c < 100 else 'warnings' if c < 1000 else \
            'errors' if c < 10000 else 'fatal errors'
        cx.check(error_category(c) == cat, 'category', lambda: c)
        sev = 'Notice' if c < 100 else 'Warning' if c < 1000 else 'Error' if c < 10000 else 'Fatal'
        cx.check(e.severity == sev, 'severity', lambda: c)
