"""P20: positions survive preprocessing: source maps point to the original text."""
import functools
from hutil import Job
from DHParser.preprocess import (SourceMap, SourceLocation, source_map, apply_src_mappings,
                                 tokenized_to_original_mapping, make_preprocessor, make_token,
                                 strip_tokens, gen_find_include_func, generate_include_map,
                                 srcmap_includes, preprocess_includes, chain_preprocessors,
                                 gen_neutral_srcmap_func, nil_preprocessor, has_includes,
                                 result_from_mapping, ReadIncludeOnce,
                                 BEGIN_TOKEN, TOKEN_DELIMITER, END_TOKEN)
from DHParser.error import Error, add_source_locations

ASSUMPTIONS = ['tokenizers only add tokens to the text (their arguments are parts of the text or empty)',
               'the original text contains no token markers except those of earlier preprocessors',
               'included files do not include themselves']

XN = [(97, 98), (10, 10)]


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = 4 if q else 5
    J.append(Job('token', 'token', dict(n=n), weight=60, max_paths=400000,
                 bounds='all texts of up to %d characters with up to two tokens with arguments of any '
                        'length at any place; every position, the end included' % n))
    J.append(Job('chain-token', 'chain_token', dict(n=2 if q else 3), weight=90, max_paths=400000,
                 bounds='texts of up to %d characters, two to three tokenizers in a chain, one token each, '
                        'an error at any position of any stage' % (2 if q else 3)))
    for k in ('one', 'nested', 'twice', 'dirs'):
        J.append(Job('include-' + k, 'include', dict(kind=k, m=3 if q else 4), weight=60, max_paths=400000,
                     bounds='master file of up to %d pieces (text of one character or an include), included files of '
                            'up to two pieces, arbitrary text' % (3 if q else 4)))
    J.append(Job('mixed', 'mixed', dict(m=2 if q else 3), weight=90, max_paths=400000,
                 bounds='includes followed by a tokenizer; master file of up to %d pieces, one token '
                        'anywhere' % (2 if q else 3)))
    J.append(Job('find', 'find', dict(n=6 if q else 7), weight=90, max_paths=900000,
                 bounds='all texts of up to %d characters from < a > # newline; includes inside and '
                        'outside of comments' % (6 if q else 7)))
    J.append(Job('tables', 'tables', dict(), weight=5,
                 bounds='source maps of up to four sections of arbitrary sizes and offsets'))
    J.append(Job('invalid', 'invalid', dict(), weight=5, bounds='source maps with lists of up to three elements'))
    J.append(Job('order', 'order', dict(), weight=1, bounds='all orders of an include-preprocessor and two others'))
    return J


def insert_token(cx, text, origin, name, anywhere=True):
    """adds a token to text; origin: for every character its position in the
    original text or None. Returns the new text and its origins."""
    a = cx.choice(name + 'a', list(range(len(text) + 1)))
    b = cx.choice(name + 'b', list(range(a, len(text) + 1)))
    return put(text, origin, name, a, b)


def put(text, origin, name, a, b):
    t = text[:a] + BEGIN_TOKEN + 'T' + TOKEN_DELIMITER + text[a:b] + END_TOKEN + text[b:]
    return t, origin[:a] + [None] * 3 + origin[a:b] + [None] + origin[b:]


def verify(cx, back, text, origin, names, docs, final, info):
    """origin: list of (file, pos) or None for each character of text; docs:
    contents of the files; final: location of the end of the text"""
    for p in range(len(text) + 1):
        loc = back(p)
        name, orig, pos = loc
        o = origin[p] if p < len(text) else final
        cx.check(any([name == x for x in names]), 'known document', lambda: (info(), p, name))
        doc = docs[name]
        cx.check(orig == doc, 'text of the document', lambda: (info(), p, name, orig))
        cx.check(0 <= pos and pos <= len(doc), 'within the document', lambda: (info(), p, name, pos))
        if o is not None:
            cx.check(name == o[0] and pos == o[1], 'original position', lambda: (info(), p, (name, pos), o))
        last = (name, pos)
    # markers lie between their neighbours
    for p in range(len(text)):
        if origin[p] is None:
            name, _, pos = back(p)
            nxt = [x for x in origin[p:] if x is not None] + [final]
            prv = [x for x in origin[:p] if x is not None]
            if prv and prv[-1][0] == nxt[0][0] and prv[-1][1] > nxt[0][1]:
                continue            # the same file has been included again
            if nxt[0][0] == name:
                cx.check(pos <= nxt[0][1], 'markers before the next character', lambda: (info(), p, pos))
            if prv and prv[-1][0] == name:
                cx.check(pos >= prv[-1][1], 'markers behind the last character', lambda: (info(), p, pos))


def token(cx, n):
    s = cx.str('s', n, XN)
    t, org = s, [('doc', k) for k in range(len(s))]
    for k in range(cx.choice('k', [0, 1, 2])):
        # the second token is added outside of the first one
        free = [i for i in range(len(t) + 1)
                if not any([t[j] == BEGIN_TOKEN and i > j and i <= t.find(END_TOKEN, j) for j in range(len(t))])]
        a = cx.choice('a%d' % k, free)
        b = cx.choice('b%d' % k, [i for i in free if i >= a and t.find(BEGIN_TOKEN, a, i) < 0])
        t, org = put(t, org, 'T', a, b)
    cx.check(strip_tokens(t) == s, 'strip_tokens', lambda: (s, t))
    prep = make_preprocessor(lambda text: (t, []))
    r = prep(s, 'doc')
    cx.check(r.preprocessed_text == t and r.original_text == s and r.errors == [], 'result', lambda: (s, t))
    verify(cx, r.back_mapping, t, org, ['doc'], {'doc': s}, ('doc', len(s)), lambda: (s, t))
    sm = tokenized_to_original_mapping(t, s, 'doc')
    for p in range(len(t) + 1):
        cx.check(source_map(p, sm).pos == r.back_mapping(p).pos, 'same map', lambda: (s, t, p))
    cx.check(not has_includes(sm), 'no includes')
    cx.observe([r.back_mapping(p).pos for p in range(len(t) + 1)])


def line(text, pos):
    l, c = 1, 1
    for k in range(pos):
        if text[k] == '\n':
            l, c = l + 1, 1
        else:
            c += 1
    return l, c


def chain_token(cx, n):
    s = cx.str('s', n, XN)
    stages = cx.choice('stages', [2, 3])
    preps, texts, orgs = [], [s], [[('doc', k) for k in range(len(s))]]
    err_stage = cx.choice('err', list(range(stages)))
    errs = []
    for k in range(stages):
        t, org = texts[-1], orgs[-1]
        free = [i for i in range(len(t) + 1)
                if not any([t[j] == BEGIN_TOKEN and i > j and i <= t.find(END_TOKEN, j) for j in range(len(t))])]
        if stages == 3 and k > 0:
            free = free[:1] + free[-1:]
        a = cx.choice('a%d' % k, free)
        b = cx.choice('b%d' % k, [i for i in free if i >= a and t.find(BEGIN_TOKEN, a, i) < 0])
        e = []
        if k == err_stage:
            e = [Error('message', cx.choice('ep', [0, len(t) // 2, len(t)]))]
            errs = [(e[0], k, e[0].pos)]
        t2, org2 = put(t, org, 'T', a, b)
        preps.append(make_preprocessor((lambda t, t2, e: lambda text: (t2 if text == t else None, e))(t, t2, e)))
        texts.append(t2)
        orgs.append(org2)
    r = chain_preprocessors(*preps)(s, 'doc')
    t, org = texts[-1], orgs[-1]
    cx.check(r.preprocessed_text == t and r.original_text == s, 'result', lambda: (s, t))
    verify(cx, r.back_mapping, t, org, ['doc'], {'doc': s}, ('doc', len(s)), lambda: (s, texts))
    for e, k, p in errs:
        cx.check(len(r.errors) == 1 and r.errors[0] is e, 'errors', lambda: r.errors)
        o = (orgs[k] + [('doc', len(s))])[p]
        if o is not None:
            cx.check(e.orig_pos == o[1] and e.orig_doc == 'doc', 'location of an error of a stage',
                     lambda: (s, texts, k, p, e.orig_pos, o))
            cx.check((e.line, e.column) == line(s, o[1]), 'line and column', lambda: (s, texts, k, p, e.line, e.column))
        else:
            cx.check(0 <= e.orig_pos and e.orig_pos <= len(s), 'location within the document', lambda: (texts, e.orig_pos))
    cx.observe([r.back_mapping(p).pos for p in range(len(t) + 1)])


RX = r'<(?P<name>\w+)>'


def pieces(cx, name, m, incl, maxlen=1):
    r = []
    for k in range(cx.choice(name + 'n', list(range(m + 1)))):
        if cx.bool('%s%di' % (name, k)):
            r.append('<' + (cx.choice('%s%dx' % (name, k), incl) if len(incl) > 1 else incl[0]) + '>')
        else:
            r.append(cx.str('%s%d' % (name, k), maxlen, XN, 1))
    return r


def expand(name, files, dirname=''):
    """text and origins after all includes have been replaced; as the pieces say"""
    t, org, pos = '', [], 0
    for p in files[name]:
        if p[:1] == '<':
            inner = dirname + p[1:-1]
            d = inner[:inner.rfind('/') + 1]
            t2, o2 = expand(inner, files, d)
            t = t + t2
            org += o2
        else:
            t = t + p
            org += [(name, pos + k) for k in range(len(p))]
        pos += len(p)
    return t, org


class Reader:
    def __init__(self, docs):
        self.docs = docs

    def __call__(self, name):
        return self.docs[name]


class Once(ReadIncludeOnce):
    docs = {}

    def read_include(self, name):
        return self.docs[name]


def make_files(cx, kind, m):
    files = {}
    rx = RX
    if kind == 'dirs':
        rx = r'<(?P<name>[\w/]+)>'
        files['d/main'] = pieces(cx, 'm', m - 1, ['a', 'e/b'])
        files['d/a'] = pieces(cx, 'a', 2, ['e/b'])
        files['d/e/b'] = pieces(cx, 'b', 1, ['c'])
        files['d/e/c'] = ['cc']
        return 'd/main', files, rx
    files['main'] = pieces(cx, 'm', m, ['a', 'b'] if kind == 'twice' else ['a'])
    if kind == 'nested':
        files['a'] = pieces(cx, 'a', 2, ['b'])
        files['b'] = pieces(cx, 'b', 1, ['c'])
        files['c'] = ['\nc'] if cx.bool('c') else []
    else:
        files['a'] = pieces(cx, 'a', 1 if m > 3 else 2, ['b'])
        files['b'] = [cx.str('b', 1, XN)]
    files['b'] = [x for x in files['b'] if len(x)]
    return 'main', files, rx


def include(cx, kind, m):
    main, files, rx = make_files(cx, kind, m)
    docs = {k: ''.join(v) for k, v in files.items()}
    cx.assume(len(docs[main]) > 0)
    r = preprocess_includes(docs[main], main, gen_find_include_func(rx), lambda: Reader(docs))
    t, org = expand(main, files, main[:main.rfind('/') + 1])
    cx.check(r.preprocessed_text == t, 'expanded text', lambda: (docs, r.preprocessed_text, t))
    verify(cx, r.back_mapping, t, org, list(docs), docs, (main, len(docs[main])), lambda: (docs, t))
    sm, t2 = generate_include_map(main, docs[main], gen_find_include_func(rx), lambda: Reader(docs))
    cx.check(t2 == t, 'same text')
    cx.check(has_includes(sm) == any([o[0] != main for o in org]) or not any([o[0] != main for o in org]),
             'has_includes', lambda: docs)
    # errors get line and column within the file they are located in
    for p in range(len(t)):
        e = Error('message', p)
        add_source_locations([e], r.back_mapping)
        cx.check(e.orig_doc == org[p][0] and (e.line, e.column) == line(docs[org[p][0]], org[p][1]),
                 'line and column', lambda: (docs, p, e.orig_doc, e.line, e.column))
    if kind == 'twice':
        # every file is included only once
        once = Once()
        once.docs = docs
        r = preprocess_includes(docs[main], main, gen_find_include_func(rx), lambda: once)
        seen, t, org = [], '', []

        def ex(name):
            t, org, pos = '', [], 0
            for p in files[name]:
                if p[:1] == '<':
                    inner = p[1:-1]
                    if inner not in seen:
                        seen.append(inner)
                        t2, o2 = ex(inner)
                        t, org = t + t2, org + o2
                else:
                    t, org = t + p, org + [(name, pos + k) for k in range(len(p))]
                pos += len(p)
            return t, org
        t, org = ex(main)
        cx.check(r.preprocessed_text == t, 'every file once', lambda: (docs, r.preprocessed_text, t))
        verify(cx, r.back_mapping, t, org, list(docs), docs, (main, len(docs[main])), lambda: (docs, t))
    cx.observe([list(r.back_mapping(p))[::2] for p in range(len(t) + 1)])


def mixed(cx, m):
    main, files, rx = make_files(cx, 'one', m)
    docs = {k: ''.join(v) for k, v in files.items()}
    cx.assume(len(docs[main]) > 0)
    t, org = expand(main, files)
    a = cx.choice('ta', list(range(len(t) + 1)))
    b = cx.choice('tb', list(range(a, len(t) + 1)))
    t2, org2 = put(t, org, 'T', a, b)
    e = [Error('message', cx.choice('ep', list(range(len(t) + 1))))]
    tok = make_preprocessor(lambda text: (t2 if text == t else None, e))
    inc = functools.partial(preprocess_includes, find_next_include=gen_find_include_func(rx),
                            include_reader=lambda: Reader(docs))
    r = chain_preprocessors(inc, nil_preprocessor, tok)(docs[main], main)
    cx.check(r.preprocessed_text == t2, 'text', lambda: (docs, r.preprocessed_text, t2))
    verify(cx, r.back_mapping, t2, org2, list(docs), docs, (main, len(docs[main])), lambda: (docs, t2))
    o = (org + [(main, len(docs[main]))])[e[0].pos]
    cx.check((e[0].orig_doc, e[0].orig_pos) == o and (e[0].line, e[0].column) == line(docs[o[0]], o[1]),
             'location of an error', lambda: (docs, e[0].pos, e[0].orig_doc, e[0].orig_pos, o))
    cx.observe([list(r.back_mapping(p))[::2] for p in range(len(t2) + 1)])


def find(cx, n):
    s = cx.str('s', n, [(10, 10), (35, 35), (60, 60), (62, 62), (97, 97)])
    f = gen_find_include_func(r'<(?P<name>a+)>', r'#[^\n]*', lambda name: name + '.x')
    g = gen_find_include_func(r'<(?P<name>a+)>')
    begin = cx.choice('begin', [0, 1]) if len(s) else 0
    for fn, comments in ((f, True), (g, False)):
        got = fn(s, begin)
        i, want = begin, (-1, 0, '')
        while i < len(s):
            if comments and s[i] == '#':
                while i < len(s) and not s[i] == '\n':
                    i += 1
                continue
            if s[i] == '<':
                k = i + 1
                while k < len(s) and s[k] == 'a':
                    k += 1
                if k > i + 1 and k < len(s) and s[k] == '>':
                    want = (i, k + 1 - i, s[i + 1:k] + ('.x' if comments else ''))
                    break
            i += 1
        cx.check(got[0] == want[0] and (want[0] < 0 or tuple(got) == want), 'next include',
                 lambda: (s, begin, comments, tuple(got), want))
    cx.observe(f(s, begin)[0])


def tables(cx):
    n = cx.choice('n', [1, 2, 3, 4])
    pos, off = [0], []
    for k in range(n):
        pos.append(pos[-1] + cx.int('len%d' % k, 1, 9))
        off.append(cx.int('off%d' % k, -5, 5))
    off.append(off[-1])
    names = [cx.choice('f%d' % k, ['a', 'b']) for k in range(n)]
    names.append(names[-1])
    docs = {'a': 'text of a', 'b': 'text of b'}
    sm = SourceMap('a', pos, off, names, docs)
    cx.check(sm.validate() is sm, 'valid')
    p = cx.int('p', -2, 40)
    i = 0
    inside = 0 <= p and p < pos[-1]
    try:
        loc = source_map(p, sm)
    except ValueError:
        cx.check(not inside, 'positions within the text are mapped', lambda: (pos, off, p))
        return
    cx.check(inside, 'other positions are rejected', lambda: (pos, off, p))
    while i < n - 1 and p >= pos[i + 1]:
        i += 1
    want = min(p + off[i], pos[i + 1] + off[i + 1])
    cx.check(loc.pos == want and loc.original_name == names[i] and loc.original_text == docs[names[i]],
             'section', lambda: (pos, off, p, loc))
    loc2 = srcmap_includes(p, sm)
    cx.check(loc2.pos == p + off[i] and loc2.original_name == names[i], 'section', lambda: (pos, off, p, loc2))
    r = result_from_mapping(sm, 'orig', 'proc', [])
    cx.check(r.back_mapping(p) == loc, 'result', lambda: loc)
    q = cx.int('q', 0, 20)
    s = gen_neutral_srcmap_func('some text', 'name')(q)
    cx.check(s.pos == q and s.original_name == 'name' and s.original_text == 'some text', 'neutral')
    two = apply_src_mappings(q, [lambda x: SourceLocation('m', 'tm', x + 1), lambda x: SourceLocation('n', 'tn', x * 2)])
    cx.check(two == ('n', 'tn', (q + 1) * 2), 'sequence of maps', lambda: two)
    cx.observe(loc.pos)


def invalid(cx):
    ll = [cx.choice('l%d' % k, [0, 1, 2, 3]) for k in range(3)]
    pos = [cx.int('p%d' % k, -1, 3) for k in range(ll[0])]
    sm = SourceMap('a', pos, [0] * ll[1], ['a'] * ll[2], {'a': ''})
    good = ll[0] == ll[1] and ll[1] == ll[2] and ll[0] >= 2 and pos[0] == 0
    for k in range(1, len(pos)):
        good = good and pos[k - 1] < pos[k]
    try:
        sm.validate()
        ok = True
    except ValueError:
        ok = False
    cx.check(ok == good, 'validate', lambda: (ll, pos))
    cx.observe(ok)


def order(cx):
    inc = functools.partial(preprocess_includes, find_next_include=gen_find_include_func(RX))
    tok = make_preprocessor(lambda text: (text, []))
    ps = [cx.choice('p%d' % k, ['inc', 'tok', 'nil']) for k in range(cx.choice('n', [1, 2, 3]))]
    try:
        chain_preprocessors(*[{'inc': inc, 'tok': tok, 'nil': nil_preprocessor}[p] for p in ps])
        ok = True
    except ValueError:
        ok = False
    cx.check(ok == ('inc' not in ps[1:]), 'includes must come first', lambda: ps)
    cx.observe(ok)
