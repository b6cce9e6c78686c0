"""Symbolic trees: the shape is chosen from all ordered trees of a given size, names and leaf
contents are symbolic. A tree is described by a plain structure  T = [name, content, attrs]
with content a str or a list of such structures, from which Node objects are built."""
from DHParser.nodetree import Node


def shapes(n):
    """all ordered trees with exactly n nodes; a leaf is [], a branch the list of its children"""
    if n == 1:
        return [[]]
    return forests(n - 1)


def forests(n):
    """all non-empty sequences of ordered trees with n nodes altogether"""
    if n == 0:
        return [[]]
    R = []
    for k in range(1, n + 1):
        for first in shapes(k):
            for rest in forests(n - k):
                R.append([first] + rest)
    return R


def shapes_upto(n):
    return [s for k in range(1, n + 1) for s in shapes(k)]


def depth(shape):
    return 1 + max([depth(c) for c in shape], default=0)


NAMES = [(97, 98)]           # a, b


def tree(cx, key, shape, names=NAMES, maxlen=1, alphabet=NAMES, minlen=0, anon=False):
    """a structure of this shape with symbolic names and contents"""
    count = [0]

    def rec(sh):
        i = count[0]
        count[0] += 1
        name = cx.str('%sn%d' % (key, i), 1, names, minlen=1) if names else 'x'
        if anon and cx.bool('%sa%d' % (key, i)):
            name = ':' + name
        if sh:
            return [name, [rec(c) for c in sh], {}]
        return [name, cx.str('%st%d' % (key, i), maxlen, alphabet, minlen=minlen), {}]
    return rec(shape)


def build(T, cls=Node):
    nd = cls(T[0], T[1] if not isinstance(T[1], list) else tuple(build(c, cls) for c in T[1]))
    if T[2]:
        nd.attr.update(T[2])
    return nd


def unbuild(nd):
    """Reads back names, contents, attributes by the most elementary means."""
    res = nd._result
    if isinstance(res, tuple):
        return [nd.name, [unbuild(c) for c in res], dict(nd.attr) if nd.has_attr() else {}]
    return [nd.name, str(res), dict(nd.attr) if nd.has_attr() else {}]


def content(T):
    if isinstance(T[1], list):
        s = ''
        for c in T[1]:
            s = s + content(c)
        return s
    return T[1]


def same(A, B):
    """equality of structures"""
    if isinstance(A[1], list) != isinstance(B[1], list):
        return False
    if not (A[0] == B[0] and A[2] == B[2]):
        return False
    if isinstance(A[1], list):
        if len(A[1]) != len(B[1]):
            return False
        for a, b in zip(A[1], B[1]):
            if not same(a, b):
                return False
        return True
    return A[1] == B[1]


def preorder(T, path=()):
    """all paths (tuples of structures) in document order"""
    p = path + (T,)
    yield p
    if isinstance(T[1], list):
        for c in T[1]:
            yield from preorder(c, p)


def leaves(T):
    return [p for p in preorder(T) if not isinstance(p[-1][1], list)]


def nodes_of(nd, path=()):
    """all paths of Node objects in document order"""
    p = path + (nd,)
    yield p
    if isinstance(nd._result, tuple):
        for c in nd._result:
            yield from nodes_of(c, p)


def show(T):
    if isinstance(T[1], list):
        return '(%s %s)' % (T[0], ' '.join(show(c) for c in T[1]))
    return '(%s "%s")' % (T[0], T[1])
