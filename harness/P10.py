"""P10: tree reduction and early dropping only remove what they promise to remove."""
import re
from hutil import Job
from pegref import grammar_class, OUTER, no_bom, nullable, T
from DHParser.parse import Drop, DropFrom, Synonym, Whitespace, CombinedParser
from DHParser.error import has_errors
from DHParser.configuration import set_config_value

ASSUMPTIONS = ['the text does not start with a byte order mark (see P05)',
               'elements of an interleave do not match the empty string (documented restriction)',
               'no errors are recovered from while parsing (see P09)']

LEVELS = (CombinedParser.NO_TREE_REDUCTION, CombinedParser.FLATTEN,
          CombinedParser.MERGE_TREETOPS, CombinedParser.MERGE_LEAVES)
RULES = {'A': ('alt', ('seq', 'b', 'a'), 'b'),          # named
         'H': ('seq', 'a', ('opt', ('sym', 'A'))),       # disposable
         'E': ('opt', 'c'),                              # named, may be empty
         'D': ('seq', ('sym', 'A'), ('opt', 'a'))}       # disposable and dropped
HIDDEN = frozenset({'H', 'D'})
OPERANDS = [T('a'), ('r', '[ab]'), ('r', 'a*'), ('i', 'B'), ('any',), ('ws', ' *'),
            ('sym', 'A'), ('sym', 'H'), ('sym', 'E'), ('sym', 'D'),
            ('seq', 'a', 'b'), ('seq', 'a', ('sym', 'A')), ('seq', ('sym', 'A'), 'a', 'b'),
            ('alt', ('sym', 'A'), 'a'), ('opt', 'a'), ('opt', ('seq', 'a', 'a')),
            ('many', 'a'), ('many1', ('sym', 'H')), ('cnt', 'a', 1, 2),
            ('cnt', ('sym', 'A'), 0, 2), ('il', ('a', 1, 1), (('sym', 'A'), 0, 1)),
            ('la', 'b'), ('nla', 'a'), ('lb', ('r', 'a')), ('syn', ('sym', 'A')),
            ('seq', ('drop', 'a'), 'b'), ('seq', 'a', ('drop', ('sym', 'A'))),
            ('alt', ('seq', ('drop', 'a'), 'b'), ('seq', 'a', 'a')),
            ('cnt', ('drop', 'a'), 2, 3), ('many', ('drop', ('any',))),
            ('many1', ('alt', ('drop', 'a'), 'b')), ('il', (('drop', 'a'), 1, 2), ('b', 0, 1))]
SHAPES = {
    'seq': OUTER['seq'], 'seq3': OUTER['seq3'], 'alt': OUTER['alt'], 'altseq': OUTER['altseq'],
    'many': OUTER['many'], 'manyalt': OUTER['manyalt'], 'cnt': OUTER['cnt'], 'il': OUTER['il'],
    'opt': OUTER['opt'], 'deep': lambda x, y: ('seq', ('seq', x, ('seq', 'a', y)), y),
    'bare': lambda x, y: ('alt', x, y),
    'named': lambda x, y: ('seq', ('sym', 'N'), x),
}


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = 3 if q else 4
    for o in SHAPES:
        if q and o in ('seq', 'opt'):       # covered by seq3 and many
            continue
        parts = 1 if q else 8
        for k in range(parts):
            J.append(Job('%s-%d' % (o, k), 'program', {'o': o, 'n': n, 'k': k, 'parts': parts, 'q': q}, weight=10,
                         max_paths=300000,
                         bounds='two operands (%s), all levels of tree reduction, each operand '
                                'dropped or not, texts of 0..%d characters a..c and blank'
                                % ('the second out of 3' if q else 'out of %d' % len(OPERANDS), n)))
    J.append(Job('comments', 'comments', {'n': 4 if q else 6}, weight=10,
                 bounds='dropped whitespace that keeps comments, texts of 0..%d characters' % (4 if q else 6)))
    return J


def make(rules, level, reference):
    """grammar instance; reference: dropped parsers get the name DROP instead"""
    number = []

    def mk(t, tr):
        if t[0] != 'drop':
            return None
        x = t[1] if isinstance(t[1], tuple) else T(t[1])
        p = tr(x)
        number.append(0)
        name = 'DROP%d' % len(number)
        if x[0] == 'sym':
            return Synonym(p).name(name) if reference else DropFrom(p)
        return p.name(name) if reference else Drop(p)
    r = dict(rules)
    if not reference and 'D' in r:
        r['D'] = ('drop', r['D'])
    cls = grammar_class(r, mk=mk, attrs={'disposable__': frozenset({'H', 'D'} if not reference else {'H'}),
                                         'early_tree_reduction__': level})
    return cls(static_analysis=False)


def items(nd):
    """content of a node with anonymous structure and dropped nodes removed"""
    if not nd.children:
        r = str(nd.result)
        return [r] if r else []
    out = []
    for c in nd.children:
        if c.name == 'D' or c.name.startswith('DROP'):
            continue
        if c.name[0] == ':':
            xs = items(c)
        else:
            xs = [(c.name, c.pos, items(c))]
        for x in xs:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + x
            else:
                out.append(x)
    return out


def simplify(r):
    """the empty string and no content are the same"""
    return [x for x in r if not (isinstance(x, str) and not x)]


def compare(cx, got, want, dropping, info):
    # (a node that is passed through by anonymous parsers, because everything else has been
    # dropped, gets the position of these parsers)
    cx.check(len(got) == len(want), 'same named nodes and content', info)
    for a, b in zip(got, want):
        if isinstance(b, str) or isinstance(a, str):
            cx.check(isinstance(a, str) and isinstance(b, str) and a == b, 'same content', info)
        else:
            cx.check(a[0] == b[0], 'same named nodes', info)
            cx.check(a[1] == b[1] or (dropping and a[1] < b[1]), 'same positions', info)
            compare(cx, simplify(a[2]), simplify(b[2]), dropping, info)


def promises(cx, level, nd, info, top=True):
    ch = nd.children
    anon = [c.name[0] == ':' and not c.children for c in ch]
    for c, a in zip(ch, anon):
        cx.check(c.name[0] != ':' or not c.children, 'anonymous branches are flattened', info)
        cx.check(not (a and not c._result), 'empty anonymous nodes are removed', info)
        promises(cx, level, c, info, False)
    if level == CombinedParser.MERGE_TREETOPS:
        cx.check(not (len(ch) > 0 and all(anon)), 'anonymous leaves merged into their parent', info)
    elif level == CombinedParser.MERGE_LEAVES:
        cx.check(not any(a and b for a, b in zip(anon, anon[1:])), 'adjacent leaves merged', info)
        cx.check(not (len(ch) == 1 and anon[0]), 'single leaf reduced', info)


def used(t, acc):
    if isinstance(t, tuple):
        if t[0] == 'sym':
            if t[1] not in acc:
                acc.add(t[1])
        else:
            for x in t:
                used(x, acc)
    return acc


def program(cx, o, n, k, parts, q):
    set_config_value('infinite_loop_warning', False)
    size = (len(OPERANDS) + parts - 1) // parts
    x = cx.choice('x', OPERANDS[k * size:(k + 1) * size])
    few = [T('a'), ('sym', 'H'), ('opt', 'b')]
    y = cx.choice('y', few if q else OPERANDS)
    s = cx.str('t', n, [(97, 99), (32, 32)] if not q else [(97, 99)])
    no_bom(cx, s)
    variants = [(x, y)]
    if not x[0] in ('la', 'nla', 'lb'):
        variants.append((('drop', x), y))
    if not y[0] in ('la', 'nla', 'lb'):
        variants.append((x, ('drop', y)))
        variants.append((('drop', x), ('drop', y)))
    if o == 'il':
        cx.assume(not may_be_empty(x) and not may_be_empty(y))
    total = []
    for X, Y in variants:
        rules = {}
        if o == 'named':
            rules['N'] = Y if Y[0] != 'drop' else Y[1]
        start = SHAPES[o](X, Y)
        names = used(start, set())
        for _ in range(3):
            for m in list(names):
                used((rules.get(m) or RULES.get(m)), names)
        rules = {m: (rules.get(m) or RULES[m]) for m in sorted(names)}
        rules['start'] = start
        ref = make(rules, CombinedParser.NO_TREE_REDUCTION, True)
        tree = ref(s, complete_match=False)
        want = simplify(items(tree))
        # the content of the tree if nothing was dropped
        end = tree.strlen()
        failed = has_errors(ref(s).errors)
        for level in LEVELS:
            g = make(rules, level, False)
            t = g(s, complete_match=False)
            info = lambda: (rules, s, level, t.as_sxpr(), tree.as_sxpr())
            dropping = X is not x or Y is not y or 'D' in rules or 'drop' in repr(start)
            compare(cx, simplify(items(t)), want, dropping, lambda: (info(), simplify(items(t)), want))
            if level != CombinedParser.NO_TREE_REDUCTION:
                promises(cx, level, t, info)
            t = g(s)
            cx.check(has_errors(t.errors) == failed, 'the same texts match', info)
        total.append(want)
    cx.observe(total)


def may_be_empty(t):
    if t[0] == 'drop':
        return may_be_empty(t[1])
    if t[0] == 'seq':
        return all(may_be_empty(x if isinstance(x, tuple) else T(x)) for x in t[1:])
    if t[0] == 'alt':
        return any(may_be_empty(x if isinstance(x, tuple) else T(x)) for x in t[1:])
    if t[0] == 'sym':
        return may_be_empty(RULES[t[1]])
    if t[0] == 'many1' or t[0] == 'cnt' and t[2]:
        return may_be_empty(t[1] if isinstance(t[1], tuple) else T(t[1]))
    return nullable(t, RULES)


COMMENT = r'#[^ ]*'


def comments(cx, n):
    """dropped whitespace with keep_comments: exactly the comments stay, blanks vanish"""
    s = cx.str('t', n, [(97, 97), (32, 32), (35, 35)])
    ws = r' *(?:#[^ ]* *)*'
    term = ('seq', 'a', ('WS',), ('many', ('seq', 'a', ('WS',))))

    def mk(mode):
        def f(t, tr):
            if t[0] != 'WS':
                return None
            if mode == 'ref':
                return Whitespace(ws).name('W')
            w = Whitespace(ws, keep_comments=mode == 'keep')
            return Drop(w)
        return f

    def build(mode):
        return grammar_class({'start': term}, mk=mk(mode), attrs={'COMMENT__': COMMENT, 'comment_rx__': re.compile(COMMENT)})(static_analysis=False)
    ref = build('ref')(s, complete_match=False)
    W = []
    for nd in ref.select('W'):
        if nd.content:
            W.append((nd.pos, nd.content))
    A = ''.join(nd.content for nd in ref.select_if(lambda x: not x.children, True) if nd.name != 'W')
    t = build('drop')(s, complete_match=False)
    cx.check(t.content == A, 'blanks and comments dropped', lambda: (s, t.as_sxpr(), A))
    t = build('keep')(s, complete_match=False)
    C = [(nd.pos, nd.content) for nd in t.select('comment__')]
    e = [w for w in W if w[1].strip()]
    cx.check(C == e, 'whitespace with comments is kept, other whitespace dropped',
             lambda: (s, t.as_sxpr(), C, e))
    cx.check(has_errors(build('keep')(s).errors) == has_errors(build('ref')(s).errors),
             'the same texts match', s)
    cx.observe(t.as_sxpr())
