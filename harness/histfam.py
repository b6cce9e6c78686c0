"""grammars with state: captures, memoization, recovery rules, left recursion, look-behind"""
import re
from DHParser.parse import RegExp, Series, Text, ZeroOrMore
from pegref import g, grammar_class


def seq(*a): return ('seq',) + a
def alt(*a): return ('alt',) + a
def many(a): return ('many', a)
def opt(a): return ('opt', a)
def la(a): return ('la', a)
def nla(a): return ('nla', a)
def S(n): return ('sym', n)
def R(n): return ('ret', n)
def P(n): return ('pop', n)


Q = ('cap', ('r', '[ab]'))
# name -> (rules, start symbols, attributes)
GRAMS = dict(
    capture=(g(q=Q, start=seq(S('q'), opt(S('start')), P('q'))), ['start', 'q'], lambda: {}),
    retrieve=(g(q=Q, x=seq(R('q'), '-'), start=seq(many(S('q')), opt(S('x')), many(P('q')))),
              ['start', 'x', 'q'], lambda: {}),
    capla=(g(q=Q, start=seq(la(S('q')), ('any',), opt(P('q')))), ['start', 'q'], lambda: {}),
    mand=(g(s=('mseq', 1, 'a', 'b'), start=many(alt(S('s'), 'c'))), ['start', 's'], lambda: {}),
    mandrec=(g(start=alt(('mseq', 1, '(', S('start'), ')'), 'a')), ['start'], lambda: {}),
    resume=(g(s=('mseq', 1, 'a', 'b', 'c'), start=many(seq(S('s'), ','))), ['start', 's'],
            lambda: {'resume_rules__': {'s': [re.compile(r'(?=,)')]}}),
    skip=(g(s=('mseq', 1, 'a', 'b', 'c'), start=many(S('s'))), ['start', 's'],
          lambda: {'skip_rules__': {'s': ['c', re.compile('d(?=c)')]},
                   'error_messages__': {'s': [('d', 'no "d", {1}, please'), ('', 'x {0} {1}')]}}),
    resumepar=(g(s=('mseq', 1, 'a', 'b'), r=many(('r', '[^,]')), start=many(seq(S('s'), ','))),
               ['start', 's'], 'resumepar'),
    mil=(g(start=seq(('mil', 1, ('a', 1, 1), ('b', 1, 2)), opt('c'))), ['start'], lambda: {}),
    leftrec=(g(E=alt(seq(S('E'), '+', S('T')), S('T')), T=('r', '[ab]'), start=seq(S('E'), opt('.'))),
             ['start', 'E', 'T'], lambda: {}),
    memo=(g(X=alt('aa', 'a'), start=alt(seq(S('X'), 'b'), seq(la(S('X')), S('X'), many('a')))),
          ['start', 'X'], lambda: {}),
    lookbehind=(g(start=many(alt(seq(('lb', ('r', 'b?a')), 'c'), 'a', seq('b', nla('b')),
                                  seq(('nlb', 'a'), 'd')))),
                ['start'], lambda: {}),
    mandcap=(g(q=Q, start=seq(S('q'), ('mseq', 1, '.', P('q')))), ['start', 'q'], lambda: {}),
    il=(g(start=('il', (S('x'), 1, 1), ('b', 0, 2)), x='a'), ['start', 'x'], lambda: {}),
)


def make(name, analysis=False, **extra):
    rules, starts, attrs = GRAMS[name]
    if attrs == 'resumepar':
        attrs = lambda: {'resume_rules__': {'s': ['r']}}
    a = attrs()
    if analysis:
        a['static_analysis_pending__'] = [True]
        a['static_analysis_errors__'] = []
    a.update(extra)
    cls = grammar_class(rules, attrs=a, minimal=True)
    if name == 'resumepar':
        cls.resume_rules__ = {'s': [cls.r]}
    return cls


def snap(gr, tree):
    """everything observable about the result of parsing"""
    def nd(n):
        return (n.name, n.pos, [nd(c) for c in n.children] if n.children else str(n.content))
    return (nd(tree), [(e.code, e.pos, e.length, e.message) for e in tree.errors],
            sorted((k, [str(x) for x in v]) for k, v in gr.variables__.items() if v))


def snap_weak(gr, tree):
    return snap(gr, tree)[0]
