"""P26: token-valued attributes behave like ordered sets of tokens."""
from hutil import Job
from DHParser.nodetree import (Node, has_token, add_token, remove_token, eq_tokens,
                               validate_token_sequence, normalize_token_sequence,
                               has_token_on_attr, add_token_to_attr, remove_token_from_attr,
                               has_class, add_class, remove_class)

ASSUMPTIONS = ['tokens are separated by whitespace']

ABC = [(97, 98), (32, 32)]
WS = [(97, 98), (32, 32), (10, 10)]
WIDE = [(97, 98), (32, 32), (9, 9), (10, 10), (0xA0, 0xA0), (0x2028, 0x2028)]


def jobs(tier):
    q = tier == 'quick'
    n, m = (4, 3) if q else (5, 4)
    b = 'every sequence of up to %d characters and every second one of up to %d, from '
    J = []
    for fn in ('add', 'remove', 'has'):
        J.append(Job(fn, fn, dict(n=n, m=m, abc=ABC), weight=20, bounds=b % (n, m) + 'a, b, blank'))
        J.append(Job(fn + '-ws', fn, dict(n=3, m=2 if q else 3, abc=WS), weight=20,
                     bounds=b % (3, 2 if q else 3) + 'a, b, blank, newline'))
    J += [Job('eq', 'eq', dict(n=m, m=m, abc=WS), weight=10, bounds=b % (m, m) + 'a, b, blank, newline'),
          Job('normal', 'normal', dict(n=n), weight=5,
              bounds='every sequence of up to %d characters from a, b, and whitespace, including '
                     'no-break-space and line-separator' % n),
          Job('attr', 'attr', dict(n=3, m=2 if q else 3, abc=ABC), weight=20,
              bounds=b % (3, 2 if q else 3) + 'a, b, blank; attribute missing or present, '
              'other attributes present, class-functions included')]
    return J


def toks(s):
    """tokens of the sequence, in order, found character by character"""
    r, cur = [], ''
    for c in s:
        if c == ' ' or c == '\n':
            if cur != '':
                r.append(cur)
            cur = ''
        else:
            cur = cur + c
    if cur != '':
        r.append(cur)
    return r


def uniq(L):
    r = []
    for x in L:
        if x not in r:
            r.append(x)
    return r


def two(cx, n, m, abc):
    return cx.str('s', n, abc), cx.str('t', m, abc)


def add(cx, n, m, abc):
    s, t = two(cx, n, m, abc)
    S, T = toks(s), toks(t)
    r = add_token(s, t)
    info = lambda: (s, t, r)
    R = toks(r)
    cx.check(R == S + [x for x in uniq(T) if x not in S], 'tokens added in order at the end', info)
    cx.check(r[:1] not in (' ', '\n') and r[-1:] not in (' ', '\n') or S and R == S,
             'no superfluous blanks', info)
    cx.check(toks(add_token(r, t)) == R, 'adding again changes nothing', info)
    cx.observe(R)


def remove(cx, n, m, abc):
    s, t = two(cx, n, m, abc)
    S, T = toks(s), toks(t)
    r = remove_token(s, t)
    cx.check(toks(r) == [x for x in S if x not in T], 'exactly these tokens removed', lambda: (s, t, r))
    cx.observe(r)


def has(cx, n, m, abc):
    s, t = two(cx, n, m, abc)
    S, T = toks(s), toks(t)
    info = lambda: (s, t)
    cx.check(has_token(s, t) == all([x in S for x in T]), 'all tokens contained', info)
    if T:
        cx.check(has_token(s, t, all=False) == any([x in S for x in T]), 'some token contained', info)
    cx.observe(has_token(s, t))


def eq(cx, n, m, abc):
    s, t = two(cx, n, m, abc)
    S, T = toks(s), toks(t)
    cx.check(eq_tokens(s, t) == (all([x in T for x in S]) and all([x in S for x in T])),
             'same tokens', lambda: (s, t))
    cx.observe(eq_tokens(s, t))


def normal(cx, n):
    s = cx.str('s', n, WIDE)
    r = normalize_token_sequence(s)
    info = lambda: (s, r)
    ref, gap = '', False
    for c in s:
        if c == 'a' or c == 'b':
            ref = ref + (' ' if gap and ref != '' else '') + c
            gap = False
        else:
            gap = True
    cx.check(r == ref, 'normalized', info)
    cx.check(validate_token_sequence(r), 'normalized sequences are valid', info)
    cx.check(validate_token_sequence(s) == (s == ref), 'valid means normalized', info)
    cx.observe(r)


def attr(cx, n, m, abc):
    nd = Node('x', 'y')
    name = cx.choice('name', ['class', 'k'])
    if cx.bool('other'):
        nd.attr['o'] = 'a b'
    present = cx.bool('present')
    s = cx.str('s', n, abc) if present else ''
    if present:
        nd.attr[name] = s
    t = cx.str('t', m, abc)
    S, T = toks(s), toks(t)
    op = cx.choice('op', ['add', 'remove', 'keep', 'has'])
    other = nd.get_attr('o', None)
    info = lambda: (s, t, nd.as_sxpr())
    cls = name == 'class'
    if op == 'add':
        add_class(nd, t) if cls else add_token_to_attr(nd, t, name)
        cx.check(toks(nd.get_attr(name, '')) == S + [x for x in uniq(T) if x not in S], 'added', info)
        if not T:
            cx.check(not present or nd.has_attr(name), 'attribute kept', info)
    elif op == 'has':
        v = has_class(nd, t) if cls else has_token_on_attr(nd, t, name)
        cx.check(v == all([x in S for x in T]), 'contained', info)
        w = has_class(nd, t, all=False) if cls else has_token_on_attr(nd, t, name, all=False)
        if T:
            cx.check(w == any([x in S for x in T]), 'some contained', info)
        cx.check(nd.has_attr(name) == present, 'asking changes nothing', info)
    else:
        keep = op == 'keep'
        if cls:
            remove_class(nd, t, remove_empty_attr=not keep)
        else:
            remove_token_from_attr(nd, t, name, remove_empty_attr=not keep)
        left = [x for x in S if x not in T]
        cx.check(toks(nd.get_attr(name, '')) == left, 'removed', info)
        cx.check(nd.has_attr(name) == (bool(left) or (keep and present)), 'empty attribute', info)
    cx.check(nd.get_attr('o', None) == other, 'other attributes not affected', info)
    cx.observe(nd.as_sxpr())
