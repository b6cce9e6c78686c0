"""P08: captured variables follow the accepted derivation only."""
from hutil import Job, ANY
from pegref import g, no_bom, grammar_class, cmatch
from DHParser.error import has_errors, is_error, CAPTURE_STACK_NOT_EMPTY, \
    CAPTURE_STACK_NOT_EMPTY_WARNING, AUTOCAPTURED_SYMBOL_NOT_CLEARED

ASSUMPTIONS = ['captured symbols do not match the empty string (the library warns about those)']


def seq(*a): return ('seq',) + a
def alt(*a): return ('alt',) + a
def many(a): return ('many', a)
def opt(a): return ('opt', a)
def la(a): return ('la', a)
def nla(a): return ('nla', a)
def S(n): return ('sym', n)
def R(n): return ('ret', n)
def P(n): return ('pop', n)


Q = ('cap', ('r', '[ab]'))
QQ = ('cap', ('r', '[ab]+'))
ANYC = ('any',)
CASES = dict(
    quote=g(q=QQ, start=seq(S('q'), '.', many(seq(nla(R('q')), ANYC)), P('q'))),
    alts=g(q=Q, start=alt(seq(S('q'), 'x', P('q')), seq(S('q'), 'y', P('q')))),
    alts2=g(q=QQ, start=alt(seq(S('q'), '.', P('q'), 'x'), seq(S('q'), '.', P('q')))),
    nested=g(q=Q, start=seq(S('q'), many(S('start')), P('q'))),
    lookahead=g(q=Q, start=seq(la(seq(S('q'), 'x')), S('q'), ANYC, P('q'))),
    nlookahead=g(q=Q, start=seq(nla(seq(S('q'), 'x')), S('q'), ANYC, P('q'))),
    la_pop=g(q=Q, start=seq(S('q'), la(P('q')), P('q'))),
    la_end=g(q=Q, start=seq('x', la(S('q')))),
    memo=g(q=Q, X=seq(S('q'), 'x'), start=alt(seq(S('X'), '!', P('q')), seq(S('X'), P('q')),
                                              seq(S('q'), P('q')))),
    memo_la=g(q=Q, X=seq(S('q'), 'x'), start=seq(la(S('X')), S('X'), P('q'))),
    memo_pop=g(q=Q, Y=P('q'), start=seq(S('q'), S('q'), alt(seq(S('Y'), 'x'), seq(S('Y'), S('Y'))))),
    memo_ret=g(q=Q, Y=R('q'), start=seq(S('q'), la(S('q')), alt(seq(S('q'), S('Y'), 'x'),
                                                              S('Y')), opt(P('q')))),
    twice=g(q=Q, start=seq(S('q'), R('q'), P('q'))),
    auto=g(q=Q, start=seq(R('q'), '-', R('q'), alt(seq('!', R('q')), P('q')))),
    option=g(q=Q, start=seq(opt(seq(S('q'), 'x')), opt(S('q')), many(P('q')))),
    stacks=g(q=Q, start=seq(many(S('q')), '.', many(P('q')))),
    two=g(p=Q, q=('cap', ('r', '[bc]')), start=seq(S('p'), S('q'), alt(seq(P('p'), P('q')),
                                                                   seq(P('q'), P('p'))))),
    opop=g(q=QQ, start=seq(S('q'), '.', ('opop', 'q'), opt(P('q')))),
    bpop2=g(q=('cap', ('r', '[(<{]+')), start=seq(S('q'), 'x', ('bpop', 'q'))),
    ret_pos=g(q=Q, Y=R('q'), start=alt(seq(S('q'), 'b', S('Y')), seq('a', S('q'), S('Y')), seq('a', 'b', S('q')))),
    bpop=g(q=('cap', ('r', '[(<{]')), start=seq(S('q'), opt(S('start')), ('bpop', 'q'))),
    popback=g(q=Q, start=seq(S('q'), alt(seq(P('q'), 'x'), seq(P('q'), 'y'), seq('z', R('q'))))),
    popback2=g(q=Q, start=seq(S('q'), S('q'), alt(seq(P('q'), P('q'), 'x'), seq(P('q'), P('q'))))),
    popback_many=g(q=Q, start=seq(S('q'), S('q'), alt(seq(('many1', P('q')), 'x'),
                                                      seq(('many1', P('q')), opt('y'))))),
    popback_shared=g(q=Q, Y=P('q'), start=seq(S('q'), S('q'), alt(seq(S('Y'), S('Y'), 'x'),
                                                                seq(S('Y'), 'z', S('Y'))))),
    failed=g(q=Q, start=seq(opt(seq(S('q'), 'x')), ANYC, opt(ANYC))),
    failed_many=g(q=Q, start=seq(many(seq(S('q'), ',')), S('q'), many(P('q')))),
    retalt=g(q=Q, start=seq(S('q'), many(alt('x', seq(R('q'), 'y'))), P('q'))),
    cnt=g(q=Q, start=seq(opt(('cnt', S('q'), 2, 3)), many(P('q')))),
    back_la=g(q=Q, start=alt(seq(S('q'), la('x'), 'xx'), seq(S('q'), 'x', P('q')))),
    recmemo=g(q=Q, X=seq(S('q'), opt(S('X')), '.'),
              start=alt(seq(S('X'), '!'), seq(S('X'), ('many1', P('q'))))),
    recursive=g(q=Q, X=seq(S('q'), opt(S('X')), '.', P('q')), start=seq(S('X'), opt('!'))),
    leftrec=g(q=Q, E=alt(seq(S('E'), ',', S('q')), S('q')), start=seq(S('E'), '.', many(P('q')))),
    leftrec_pop=g(q=Q, E=alt(seq(S('E'), P('q')), seq(S('q'), 'x')), start=seq(S('E'), opt(ANYC))),
)
LEFTREC = dict(
    leftrec=g(q=Q, E=seq(S('q'), many(seq(',', S('q')))), start=seq(S('E'), '.', many(P('q')))),
    leftrec_pop=g(q=Q, E=seq(S('q'), 'x', many(P('q'))), start=seq(S('E'), opt(ANYC))),
)
DEEP = ('stacks', 'memo_pop', 'nested', 'two', 'popback2', 'auto', 'failed_many', 'leftrec')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in CASES:
        n = (7 if name in DEEP else 6) + (0 if q else 1)
        J.append(Job(name, 'variables', {'name': name, 'n': n}, weight=2 ** n,
                     tags=['match'] + (['fail'] if name not in ('option', 'cnt') else []),
                     bounds='grammar %s, texts of 0..%d arbitrary characters' % (name, n)))
    return J


def grown(name, s):
    """The left-recursive symbol is matched by two or more rounds of recursion."""
    if name == 'leftrec':
        return len(s) >= 3 and s[0] in 'ab' and s[1] == ',' and s[2] in 'ab'
    return len(s) >= 3 and s[0] in 'ab' and s[1] == 'x' and s[2] == s[0]


def variables(cx, name, n):
    rules = CASES[name]
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    if name in LEFTREC and grown(name, s) and cx.known('P08-left-recursion'):
        return
    if name == 'recmemo':
        x = cmatch(rules, S('X'), s, 0, {})
        if x is not None and (s[x[0]:x[0] + 1] != '!' or s[1] in 'ab') and cx.known('P08-recursive-memo'):
            return
    r = cmatch(LEFTREC.get(name, rules), S('start'), s, 0, {})
    gr = grammar_class(rules, minimal=True)(static_analysis=False)
    tree = gr(s, complete_match=False)
    if r is None:
        cx.tag('fail')
        cx.check(tree.content == '', 'nothing is matched', lambda: (name, s, tree.content))
    else:
        cx.tag('match')
        end, st = r
        cx.check(tree.content == s[:end], 'prefix', lambda: (name, s, tree.content, end))
        left = {k: list(v) for k, v in gr.variables__.items() if v}
        expected = {k: list(v) for k, v in st.items() if v}
        cx.check(left == expected, 'values left on the stacks', lambda: (name, s, left, expected))
        cx.check(any(is_error(e.code) for e in tree.errors) == bool(expected),
                 'left-over values are reported', lambda: (name, s, [str(e) for e in tree.errors], left))
        for e in tree.errors:
            cx.check(e.code in (CAPTURE_STACK_NOT_EMPTY, AUTOCAPTURED_SYMBOL_NOT_CLEARED),
                     'no other errors', lambda: (name, s, str(e)))
    cx.observe(tree.content, len(tree.errors))
