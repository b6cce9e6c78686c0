"""P05: concrete syntax trees are lossless and errors mark incomplete matches."""
from hutil import Job, ANY
from pegref import FAMILY, grammar_class, match, no_bom
from DHParser.error import has_errors, is_error, PARSER_STOPPED_BEFORE_END_WARNING
from DHParser.configuration import set_config_value

ASSUMPTIONS = ['trailing whitespace may be left out of the tree only together with the warning '
               'that says so', 'a byte order mark is not part of the text']

EXTRA = dict(
    lines=dict(line=('r', '[a-z]+'), start=('seq', ('sym', 'line'),
                                            ('many', ('seq', '\n', ('sym', 'line'))))),
    lines2=dict(A=('seq', 'a', '\n'), start=('many', ('sym', 'A'))),
    nla_err=dict(start=('seq', ('many', ('seq', ('nla', 'b'), ('any',))), 'bb')),
    nla_memo=dict(A='a', start=('seq', ('nla', ('seq', ('sym', 'A'), 'b')), ('sym', 'A'),
                                ('nla', ('sym', 'A')), 'c')),
    empty=dict(start=('always',)),
    never=dict(start=('never',)),
)
GRAMMARS = dict(FAMILY)
GRAMMARS.update(EXTRA)
for g in ('icase', 'icase2', 'lb_text', 'cnt_nested', 'cnt_alt', 'il_order', 'choice_back',
          'many_zero', 'regex', 'option'):
    del GRAMMARS[g]

# grammars with mandatory items, without any rules for recovery: the violation falls through
# several levels of the grammar
MANDATORY = dict(
    deep=dict(inner=('mseq', 1, 'b', 'c'), mid=('seq', ('opt', 'a'), ('sym', 'inner')),
              start=('seq', ('many', '('), ('sym', 'mid'), ')')),
    deeper=dict(x=('mseq', 1, 'b', ('any',), 'c'), y=('seq', ('opt', 'a'), ('opt', ('sym', 'x'))),
                z=('alt', ('seq', ('opt', 'a'), 'd', ('sym', 'y')), ('sym', 'y')),
                start=('seq', ('opt', 'e'), ('sym', 'z'), ('many', ('any',)))),
    paren=dict(p=('alt', ('mseq', 1, '(', ('opt', ('sym', 'p')), ')'), ('seq', 'a', ('sym', 'p')), 'b'),
               start=('many', ('sym', 'p'))),
    rootrec=dict(start=('alt', ('mseq', 1, '(', ('opt', ('sym', 'start')), ')'),
                        ('seq', 'a', ('sym', 'start')), 'b')),
    interleave=dict(x=('mil', 1, ('b', 1, 2), ('c', 1, 1)), y=('seq', ('opt', 'a'), ('sym', 'x')),
                    start=('seq', ('opt', 'a'), ('sym', 'y'), ('opt', 'd'))),
    incap=dict(x=('mseq', 2, ('opt', 'a'), 'b', ('la', 'c')), start=('many', ('seq', ('opt', 'd'), ('sym', 'x'), ('any',)))),
)
DEEP = ('lines2', 'nla_err', 'nla_memo', 'cnt_many', 'rec', 'il_rep', 'many_back')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in GRAMMARS:
        n = 5 if not q else 4 if name in DEEP else 3
        J.append(Job('lossless-' + name, 'lossless', {'name': name, 'n': n}, weight=20,
                     bounds='grammar %s, texts of 0..%d arbitrary characters, complete match '
                            'required or not, 1 or 3 drop-outs' % (name, n)))
    for name in MANDATORY:
        n = 4 if q else 5
        J.append(Job('violation-' + name, 'violation', {'name': name, 'n': n}, weight=20,
                     tags=['violated', 'clean'],
                     bounds='grammar %s with mandatory items, texts of 0..%d arbitrary characters, '
                            '1 or 3 drop-outs' % (name, n)))
    J.append(Job('bom', 'bom', {'n': 4}, tags=['one', 'three', 'none'],
                 bounds='texts of 0..4 characters over byte order marks and a letter'))
    return J


def check_tree(cx, tree, text):
    """positions of all nodes = length of the content before them"""
    def visit(nd, pos):
        cx.check(nd.pos == pos, 'position of node', lambda: (text, nd.name, nd.pos, pos))
        if nd.children:
            cx.check(isinstance(nd.result, tuple), 'result is a tuple of children')
            for c in nd.children:
                pos = visit(c, pos)
        else:
            pos += len(nd.content)
        return pos
    end = visit(tree, 0)
    cx.check(end == len(tree.content), 'length', lambda: (text, end))


def lossless(cx, name, n):
    rules = GRAMMARS[name]
    s = cx.str('t', n, ANY)
    if len(s) > 0:
        cx.assume((s[0] != '\ufeff') & (s[0] != '\uffef'))
    if len(s) > 2:
        cx.assume(s[:3] not in ('\xef\xbb\xbf', '\x00\x00\ufeff', '\x00\x00\ufffe'))
    mode = cx.choice('mode', [True, 'WSP_RE__', False])
    drop = cx.choice('dropouts', [1, 3]) if mode is True else 1
    gr = grammar_class(rules)(static_analysis=False)
    gr.max_parser_dropouts__ = drop
    tree = gr(s, complete_match=mode)
    end = match(rules, ('sym', 'start'), s, 0)
    errors = tree.errors
    cx.check(tree.source == s, 'source')
    if mode is True or end is None or mode is False:
        expected = s if mode is True else (s[:end] if mode is False and end is not None else None)
        if expected is not None:
            cx.check(tree.content == expected, 'content', lambda: (rules, s, tree.as_sxpr()))
        elif mode is not False:
            rest_ok = s.strip() == ''
            cx.check(rest_ok or tree.content == s, 'content', lambda: (rules, s, tree.as_sxpr()))
    else:
        if s[end:].strip() == '' and end < len(s):
            cx.check(tree.content == s[:end], 'content without trailing whitespace',
                     lambda: (rules, s, tree.as_sxpr()))
            cx.check(any(e.code == PARSER_STOPPED_BEFORE_END_WARNING and e.pos == end
                         for e in errors), 'warning about trailing whitespace', lambda: s)
        else:
            cx.check(tree.content == s, 'content', lambda: (rules, s, tree.as_sxpr()))
    if mode is True:
        cx.check(has_errors(errors) == (end is None or end != len(s)),
                 'errors iff the text does not match', lambda: (rules, s, [str(e) for e in errors]))
    elif mode == 'WSP_RE__' and end is not None:
        cx.check(has_errors(errors) == (s[end:].strip() != ''),
                 'errors iff more than whitespace is left', lambda: (rules, s, [str(e) for e in errors]))
    check_tree(cx, tree, s)
    for e in errors:
        cx.check(0 <= e.pos and e.pos <= len(s), 'error lies within the text',
                 lambda: (rules, s, e.pos, str(e)))
    cx.observe(tree.as_sxpr() if all(c > 31 for c in map(ord, s)) else 0, len(errors))


def violation(cx, name, n):
    rules = MANDATORY[name]
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    gr = grammar_class(rules)(static_analysis=False)
    gr.max_parser_dropouts__ = cx.choice('dropouts', [1, 3])
    tree = gr(s, complete_match=True)
    cx.tag('violated' if tree.errors else 'clean')
    cx.check(tree.content == s, 'content', lambda: (rules, s, tree.as_sxpr()))
    check_tree(cx, tree, s)
    for e in tree.errors:
        cx.check(0 <= e.pos and e.pos <= len(s), 'error lies within the text',
                 lambda: (rules, s, e.pos, str(e)))
    # a text with a violation is never accepted silently: drop the marks and compare
    plain = match(unmarked(rules), ('sym', 'start'), s, 0)
    if not has_errors(tree.errors):
        cx.check(plain == len(s), 'accepted texts belong to the language', lambda: (rules, s, plain))
    cx.observe(tree.as_sxpr() if all(c > 31 for c in map(ord, s)) else 0, len(tree.errors))


def unmarked(t):
    if isinstance(t, dict):
        return {k: unmarked(v) for k, v in t.items()}
    if isinstance(t, tuple):
        if t[0] == 'mseq':
            return ('seq',) + tuple(unmarked(x) for x in t[2:])
        if t[0] == 'mil':
            return ('il',) + tuple((unmarked(x[0]),) + x[1:] for x in t[2:])
        return tuple(unmarked(x) for x in t)
    return t


def bom(cx, n):
    s = cx.str('t', n, [(97, 97), (0, 0), (0xef, 0xef), (0xbb, 0xbb), (0xbf, 0xbf),
                        (0xfffe, 0xfffe), (0xfeff, 0xfeff), (0xffef, 0xffef)])
    gr = grammar_class(dict(start=('many', ('any',))))(static_analysis=False)
    tree = gr(s)
    if s[:1] in ('\ufeff', '\uffef'):
        cx.tag('one')
        expected = s[1:]
    elif s[:3] in ('\xef\xbb\xbf', '\x00\x00\ufeff', '\x00\x00\ufffe'):
        cx.tag('three')
        expected = s[3:]
    else:
        cx.tag('none')
        expected = s
    cx.check(tree.content == expected, 'everything but the byte order mark',
             lambda: (s, tree.content))
    cx.check(len(tree.errors) == 0, 'no errors', lambda: s)
