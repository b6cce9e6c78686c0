"""P01: a StringView is observationally equal to the str it denotes."""
from hutil import Job, ANY, opt_int
from DHParser.stringview import StringView

ASSUMPTIONS = ['slices without step (StringView documents that step sizes are unsupported)',
               'no search for an empty needle from a start index beyond the end']


def jobs(tier):
    q = tier == 'quick'
    J = []
    for k in range(0, (3 if q else 4) + 1):
        J.append(Job('index-len%d' % k, 'indexing', {'n': k}, tags=['indexed'] if k else []))
        J.append(Job('compare-len%d' % k, 'comparing', {'n': k}, tags=['eq', 'ne'] if k else [],
                     weight=2 * k))
        for same in (True, False):
            J.append(Job('compare-views-len%d-%s' % (k, same), 'comparing_views',
                         {'n': k, 'same': same}, tags=['compared'], weight=2 * k,
                         bounds='two views on the same or on two texts of %d characters' % k))
        J.append(Job('strip-len%d' % k, 'stripping', {'n': k}, tags=['stripped'],
                     bounds='strip characters: default, or a symbolic string of length <= 2'))
        J.append(Job('split-len%d' % k, 'splitting', {'n': k}, tags=['split']))
    for k in range(0, (2 if q else 3) + 1):
        J.append(Job('regex-len%d' % k, 'regex', {'n': k}, tags=['regex'], weight=2 * k))
        for ctor in (True, False):
            J.append(Job('slice-len%d-%s' % (k, ctor), 'slicing', {'n': k, 'ctor': ctor},
                         tags=['sliced'], max_paths=60000,
                         bounds='text of %d arbitrary characters, view bounds and slice bounds '
                                'in [-%d, %d] or absent' % (k, k + 2, k + 2), weight=k))
        for op in ('find', 'rfind', 'count', 'startswith', 'endswith'):
            J.append(Job('%s-len%d' % (op, k), 'searching', {'n': k, 'op': op}, tags=['searched'],
                         bounds='text of %d arbitrary characters, needle of <= 2 arbitrary '
                                'characters; start/end in [-%d, %d] or absent' % (
                                    k, k + 1, k + 2), weight=5 * k, max_paths=60000))
    return J


def view(cx, n):
    """an arbitrary view on a text of n arbitrary characters, cached or not"""
    s = cx.str('t', n, ANY, minlen=n)
    b = cx.int('vb', 0, n)
    e = cx.int('ve', 0, n)
    sv = StringView(s)[b:e]
    ref = s[b:e]
    if cx.bool('cached'):
        cx.check(str(sv) == ref, 'str')
    return s, sv, ref


def slicing(cx, n, ctor):
    s = cx.str('t', n, ANY, minlen=n)
    if ctor:
        b, e = opt_int(cx, 'b', -n - 2, n + 2), opt_int(cx, 'e', -n - 2, n + 2)
        sv, ref = StringView(s, b, e), s[b:e]
    else:
        sv, ref = StringView(s), s
    b2, e2 = opt_int(cx, 'b2', -n - 2, n + 2), opt_int(cx, 'e2', -n - 2, n + 2)
    r = sv[b2:e2]
    rr = ref[b2:e2]
    cx.tag('sliced')
    cx.check(len(r) == len(rr), 'len of slice', lambda: (b2, e2))
    cx.check(bool(r) == bool(rr), 'truth of slice')
    cx.check(str(r) == rr, 'content of slice')
    cx.check(str(r) == rr, 'content of slice when read again')
    cx.check(str(sv) == ref, 'slicing leaves the view unchanged')
    cx.observe(len(r), str(r))


def indexing(cx, n):
    s, sv, ref = view(cx, n)
    i = cx.int('i', -n - 1, n + 1)
    try:
        x = ref[i]
    except IndexError:
        x = None
    try:
        y = str(sv[i])
    except IndexError:
        y = None
    cx.tag('indexed')
    cx.check((x is None) == (y is None), 'IndexError', lambda: (i, x, y))
    if x is not None:
        cx.check(x == y, 'indexed character')
    cx.observe(x, y)


def comparing(cx, n):
    s, sv, ref = view(cx, n)
    o = cx.str('o', 2, ANY)
    eq = sv == o
    cx.check(eq == (ref == o), 'comparison with str')
    ov = StringView(o)
    if cx.bool('ocached'):
        str(ov)
    cx.check((sv == ov) == (ref == o), 'comparison with view')
    if eq:
        cx.tag('eq')
        if not cx.symbolic:
            cx.check(hash(sv) == hash(ref) and hash(sv) == hash(ov), 'hash of equal views')
    else:
        cx.tag('ne')
    cx.check(str(sv + o) == ref + o, 'concatenation')
    cx.check(str(o + sv) == o + ref, 'reverse concatenation')
    cx.check(str(sv + ov) == ref + o, 'concatenation of views')
    r = sv.replace(o, 'xy')
    cx.check(r == ref.replace(o, 'xy'), 'replace')
    cx.observe(str(sv + o), r)


def comparing_views(cx, n, same):
    s, sv, ref = view(cx, n)
    s2 = s if same else cx.str('u', n, ANY, minlen=n)
    w = StringView(s2)[cx.int('wb', 0, n):cx.int('we', 0, n)]
    cx.tag('compared')
    cx.check((sv == w) == (ref == str(w)), 'comparison of views')
    cx.check((w == sv) == (ref == str(w)), 'comparison of views, reversed')
    cx.observe(str(w))


def searching(cx, n, op):
    s, sv, ref = view(cx, n)
    x = cx.str('x', 2, ANY)
    m = n + 2
    a, e = opt_int(cx, 'a', -n - 1, m), opt_int(cx, 'e', -n - 1, m)
    cx.tag('searched')
    if len(x) == 0 and a is not None:
        # an empty needle beyond the end of the text: start is capped like a slice index
        cx.assume(a <= len(ref))
    if op in ('startswith', 'endswith'):
        if a is None:
            a = 0
        r = getattr(sv, op)(x, a, e)
    else:
        r = getattr(sv, op)(x, a, e)
    rr = getattr(ref, op)(x, a, e)
    cx.check(r == rr, op, lambda: (ref, x, a, e, r, rr))
    cx.check(str(sv) == ref, 'view unchanged')
    cx.observe(r)


def stripping(cx, n):
    s, sv, ref = view(cx, n)
    which = cx.choice('which', ['strip', 'lstrip', 'rstrip'])
    cx.tag('stripped')
    if cx.bool('default'):
        r = getattr(sv, which)()
        rr = getattr(ref, which)(' \n\r\t')
    else:
        ch = cx.str('ch', 2, ANY)
        r = getattr(sv, which)(ch)
        rr = getattr(ref, which)(ch)
    cx.check(str(r) == rr, which, lambda: (ref, str(r), rr))
    cx.check(len(r) == len(rr), 'len after ' + which)
    cx.observe(str(r))


def splitting(cx, n):
    s, sv, ref = view(cx, n)
    cx.tag('split')
    if cx.bool('ws'):
        r = sv.split()
        rr = ref.split()
    else:
        sep = cx.str('sep', 2, ANY, minlen=1)
        r = sv.split(sep)
        rr = ref.split(sep)
    cx.check(len(r) == len(rr), 'number of pieces', lambda: (ref, r, rr))
    for p, q in zip(r, rr):
        cx.check(str(p) == q, 'piece')
    cx.observe([str(p) for p in r])


PATTERNS = None


def setup():
    global PATTERNS
    from DHParser.toolkit import re
    PATTERNS = [re.compile(p) for p in (r'\s*', r'\w+', r'a|ab', r'[^a]b?', r'(?=\d)', r'.$')]


def regex(cx, n):
    s, sv, ref = view(cx, n)
    rx = cx.choice('rx', PATTERNS)
    off = sv.index(0)
    cx.tag('regex')
    m = sv.match(rx)
    # the view never lets a match extend beyond its end or start before its beginning
    mm = rx.match(s, -off, -off + len(ref))
    cx.check((m is None) == (mm is None), 'match')
    if m is not None:
        cx.check(m.span() == mm.span(), 'span')
        b, e = sv.indices(m.span())
        cx.check(b == 0 and b <= e and e <= len(ref), 'match lies within the view')
        cx.check(m.group(0) == ref[b:e], 'matched text')
    a, e = opt_int(cx, 'a', 0, n + 1), opt_int(cx, 'e', 0, n + 1)
    m = sv.search(rx, a, e)
    if m is not None:
        b, e2 = sv.indices(m.span())
        hi = len(ref) if e is None else e
        cx.check(b >= (0 if a is None else min(a, len(ref))), 'search respects start')
        cx.check(e2 <= min(hi, len(ref)) or (e2 == b), 'search respects end',
                 lambda: (ref, a, e, b, e2))
        cx.check(m.group(0) == ref[b:e2], 'found text')
    k = 0
    for m in sv.finditer(rx):
        b, e = sv.indices(m.span())
        cx.check(b >= k and e <= len(ref) and m.group(0) == ref[b:e], 'finditer')
        k = e
    cx.observe(k)
