"""P06: left-recursive grammars match like their iterated equivalents."""
from hutil import Job, ANY
from pegref import g, no_bom, grammar_class, match
from DHParser.error import has_errors

ASSUMPTIONS = ['left recursions are not interwoven (documented restriction)',
               'each left-recursive cycle contains one Forward object, as the EBNF compiler sees to']


def seq(*a): return ('seq',) + a
def alt(*a): return ('alt',) + a
def many(a): return ('many', a)
def opt(a): return ('opt', a)
def la(a): return ('la', a)
def nla(a): return ('nla', a)
def S(n): return ('sym', n)


# name -> (left-recursive rules, equivalent rules without left recursion, left-associative symbols)
CASES = dict(
    direct=(g(start=alt(seq(S('start'), '+', 'a'), 'a')),
            g(start=seq('a', many(seq('+', 'a')))), ['start']),
    direct_long=(g(start=alt(seq(S('start'), alt('+', '-'), S('T')), S('T')), T=('r', '[ab]')),
                 g(start=seq(('r', '[ab]'), many(seq(alt('+', '-'), ('r', '[ab]'))))), ['start']),
    two_rules=(g(F=('r', '[ab]'), T=alt(seq(S('T'), '*', S('F')), S('F')),
                 start=alt(seq(S('start'), '+', S('T')), S('T'))),
               g(F=('r', '[ab]'), T=seq(S('F'), many(seq('*', S('F')))),
                 start=seq(S('T'), many(seq('+', S('T'))))), ['start', 'T']),
    brackets=(g(F=alt(seq('(', S('start'), ')'), 'a'),
                start=alt(seq(S('start'), '+', S('F')), S('F'))),
              g(F=alt(seq('(', S('start'), ')'), 'a'),
                start=seq(S('F'), many(seq('+', S('F'))))), ['start']),
    order=(g(start=alt(seq(S('start'), 'b'), seq(S('start'), 'c'), 'a')),
           g(start=seq('a', many(alt('b', 'c')))), ['start']),
    base_first=(g(start=alt('a', seq(S('start'), 'b'))), g(start=alt('a')), []),
    no_base=(g(start=alt(seq(S('start'), 'a'), seq(S('start'), 'b'))), g(start=('never',)), []),
    nullable_base=(g(start=alt(seq(S('start'), 'a'), ('r', 'b?'))),
                   g(start=seq(('r', 'b?'), many('a'))), ['start']),
    indirect=(g(B=alt(seq(S('A'), 'y'), 'b'), A=alt(seq(S('B'), 'x'), 'a'), start=S('A')),
              g(start=seq(alt('a', 'bx'), many('yx'))), []),
    indirect3=(g(C=alt(seq(S('A'), 'z'), 'c'), B=alt(seq(S('C'), 'y')), A=alt(seq(S('B'), 'x'), 'a'),
                 start=S('A')),
               g(start=seq(alt('a', 'cyx'), many('zyx'))), []),
    renamed=(g(ex=alt(seq(S('start'), '+', S('T')), S('T')), T=('r', '[ab]'), start=S('ex')),
             g(start=seq(('r', '[ab]'), many(seq('+', ('r', '[ab]'))))), []),
    hidden=(g(start=alt(seq(opt('x'), S('start'), 'y'), 'a')),
            g(R=alt(seq('x', S('start'), 'y'), 'a'), start=seq(S('R'), many('y'))), []),
    lookahead=(g(E=alt(seq(S('E'), 'b'), 'a'), start=alt(seq(la(seq(S('E'), 'c')), S('E'), 'c'),
                                                        seq(S('E'), 'd'))),
               g(E=seq('a', many('b')), start=alt(seq(S('E'), 'c'), seq(S('E'), 'd'))), ['E']),
    neg_la=(g(E=alt(seq(S('E'), 'b', nla('c')), 'a'), start=seq(S('E'), ('opt', 'bc'))),
            g(E=seq('a', many(seq('b', nla('c')))), start=seq(S('E'), ('opt', 'bc'))), []),
    repeated=(g(E=alt(seq(S('E'), 'b'), 'a'), start=seq(S('E'), many(seq(',', S('E'))))),
              g(E=seq('a', many('b')), start=seq(S('E'), many(seq(',', S('E'))))), ['E']),
    alternatives=(g(E=alt(seq(S('E'), 'b'), 'a'), start=alt(seq(S('E'), '!'), seq(S('E'), '?'), S('E'))),
                  g(E=seq('a', many('b')), start=alt(seq(S('E'), '!'), seq(S('E'), '?'), S('E'))), ['E']),
    twice=(g(E=alt(seq(S('E'), 'b'), 'a'), start=seq(S('E'), S('E'))),
           g(E=seq('a', many('b')), start=seq(S('E'), S('E'))), ['E']),
    both_sides=(g(start=alt(seq(S('start'), '+', S('start')), 'a')),
                g(start=seq('a', many(seq('+', 'a')))), []),
    postfix=(g(start=alt(seq(S('start'), '(', opt(S('start')), ')'), seq(S('start'), '.', 'a'), 'a')),
             g(start=seq('a', many(alt(seq('(', opt(S('start')), ')'), seq('.', 'a'))))), ['start']),
    nested=(g(I=alt(seq(S('I'), 'i'), 'a'), start=alt(seq(S('start'), '-', S('I')), S('I'))),
            g(I=seq('a', many('i')), start=seq(S('I'), many(seq('-', S('I'))))), ['start', 'I']),
    right_too=(g(T=alt(seq(S('T'), 'b'), 'a'), start=alt(seq(S('T'), '^', S('start')), S('T'))),
               g(T=seq('a', many('b')), start=alt(seq(S('T'), '^', S('start')), S('T'))), ['T']),
    warth=(g(num='a', expr=alt(seq(S('start'), '-', S('num')), S('num')), start=S('expr')),
           g(start=seq('a', many(seq('-', 'a')))), []),
)
DEEP = ('direct', 'two_rules', 'indirect', 'lookahead', 'neg_la', 'repeated', 'alternatives',
        'warth', 'renamed', 'hidden')


# indirect left recursion: one Forward per cycle, where the EBNF compiler places it
CYCLES = ('indirect', 'indirect3', 'renamed', 'warth')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in CASES:
        for minimal in (False, True):
            if not minimal and name in CYCLES:
                continue
            n = (7 if name in DEEP else 6) if q else 8
            J.append(Job('%s-%s' % (name, 'min' if minimal else 'all'), 'leftrec',
                         {'name': name, 'minimal': minimal, 'n': n}, weight=20,
                         tags=['match', 'fail'] if name not in ('nullable_base', 'no_base') else [],
                         bounds='grammar %s, texts of 0..%d arbitrary characters' % (name, n)))
    for name, unit in CHAINS.items():
        k = 48 if q else 96
        J.append(Job('chain-' + name, 'chain', {'name': name, 'k': k}, weight=20,
                     bounds='grammar %s, 0..%d repetitions of %s followed by 0..2 arbitrary '
                            'characters' % (name, k, unit)))
    return J


# long chains: the first operand and what each round of the recursion adds
CHAINS = dict(direct=('a', '+a'), two_rules=('b', '+b'), indirect=('a', 'yx'), nested=('a', '-a'),
              order=('a', 'b'), postfix=('a', '()'), warth=('a', '-a'))


def chain(cx, name, k):
    first, unit = CHAINS[name]
    rounds = [i for i in range(k + 1) if i in (0, 1, 2, 3, 5, 8, 9, 10, 13, 16, 17, 21, 24, 25,
                                               32, 33, 40, 48, 64, 65, 96)]
    run(cx, name, True, first + unit * cx.choice('k', rounds) + cx.str('t', 2, ANY))


def leftrec(cx, name, minimal, n):
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    run(cx, name, minimal, s)


def run(cx, name, minimal, s):
    rules, equiv, assoc = CASES[name]
    cls = grammar_class(rules, minimal=minimal)
    gr = cls(static_analysis=False)
    tree = gr(s, complete_match=False)
    end = match(equiv, S('start'), s, 0)
    if end is None:
        cx.tag('fail')
        cx.check(tree.content == '', 'nothing is matched', lambda: (name, s, tree.content))
    else:
        cx.tag('match')
        cx.check(tree.content == s[:end], 'prefix', lambda: (name, s, tree.content, end))
        cx.check(not has_errors(tree.errors), 'no errors', lambda: (s, tree.errors))
        for nd in tree.select_if(lambda nd: nd.name in assoc, include_root=True):
            inner = [c for c in nd.children if c.name == nd.name]
            if name == 'postfix':
                inner = inner[:1]
            if inner:   # a step of the recursion adds exactly one operator on the right
                cx.check(len(inner) == 1 and nd.children[0].name == nd.name
                         and len(nd.children) <= 4, 'left-associative',
                         lambda: (name, s, tree.as_sxpr()))
    tree = cls(static_analysis=False)(s, complete_match=True)
    cx.check(has_errors(tree.errors) == (end is None or end != len(s)), 'complete match',
             lambda: (name, s, [str(e) for e in tree.errors]))
    cx.observe(end, tree.content)
