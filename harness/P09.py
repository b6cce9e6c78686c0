"""P09: mandatory items: one error at the first violation, recovery as configured."""
import re
from hutil import Job, ANY
from pegref import g, no_bom, grammar_class, match, norm
from DHParser.parse import reentry_point, Parser
from DHParser.stringview import StringView
from DHParser.error import is_error, MANDATORY_CONTINUATION, MANDATORY_CONTINUATION_AT_EOF, \
    MANDATORY_CONTINUATION_AT_EOF_NON_ROOT, PARSER_STOPPED_BEFORE_END

ASSUMPTIONS = ['resume and skip rules are strings, regular expressions, functions or parsers as '
               'the EBNF compiler generates them', 'no byte order mark']
ANYC = ('any',)
MAND = (MANDATORY_CONTINUATION, MANDATORY_CONTINUATION_AT_EOF,
        MANDATORY_CONTINUATION_AT_EOF_NON_ROOT)


def seq(*a): return ('seq',) + a
def mseq(k, *a): return ('mseq', k) + a
def alt(*a): return ('alt',) + a
def many(a): return ('many', a)
def opt(a): return ('opt', a)
def la(a): return ('la', a)
def nla(a): return ('nla', a)
def S(n): return ('sym', n)
def rx(p): return re.compile(p)


def find_x(text, start, end):
    """a search function: the position behind the first 'x'"""
    i = text.find('x', start, end)
    return (i, 1) if i >= 0 else (-1, 0)


# name -> (rules, resume rules, skip rules)
CASES = dict(
    plain=(g(s=mseq(1, 'a', 'b', 'c'), start=many(seq(S('s'), ','))), {}, {}),
    resume_rx=(g(s=mseq(1, 'a', 'b', 'c'), start=many(seq(S('s'), ','))),
               {'s': [rx('(?=,)')]}, {}),
    resume_str=(g(s=mseq(1, 'a', 'b', ','), start=many(S('s'))), {'s': [',']}, {}),
    resume_func=(g(s=mseq(1, 'a', 'b'), start=many(S('s'))), {'s': [find_x]}, {}),
    resume_two=(g(s=mseq(1, 'a', 'b'), start=many(seq(S('s'), opt(',')))),
                {'s': [rx('(?=,)'), 'x']}, {}),
    resume_two2=(g(s=mseq(1, 'a', 'b'), start=many(seq(S('s'), opt(',')))),
                 {'s': ['xx', rx(',|$')]}, {}),
    skip_str=(g(s=mseq(1, 'a', 'b', 'c'), start=many(S('s'))), {}, {'s': ['b']}),
    skip_rx=(g(s=mseq(1, 'a', 'b', 'c'), start=many(S('s'))), {}, {'s': [rx('(?=[bc])')]}),
    skip_two=(g(s=mseq(1, 'a', 'b', 'c'), start=many(S('s'))), {},
              {'s': [rx('(?=c)'), rx('(?=b)')]}),
    skip_resume=(g(s=mseq(1, 'a', 'b', 'c'), start=many(S('s'))), {'s': [rx('(?=a)')]},
                 {'s': [rx('(?=c)')]}),
    nested=(g(s=mseq(1, 'a', 'b'), p=mseq(1, '(', many(S('s')), ')'), start=many(S('p'))),
            {'p': [')']}, {}),
    nested2=(g(s=mseq(1, 'a', 'b'), p=mseq(1, '(', many(S('s')), ')'), start=many(S('p'))),
             {'p': [')'], 's': [rx('(?=a)')]}, {}),
    inner=(g(s=seq('a', opt(mseq(1, 'b', 'c')), 'd'), start=many(S('s'))),
           {'s': [rx('(?=d)')]}, {}),
    inner_skip=(g(s=seq('a', opt(mseq(1, 'b', 'c')), 'd'), start=many(S('s'))), {},
                {'s': [rx('(?=d)')]}),
    choice=(g(s=mseq(1, 'a', 'b'), t=seq('a', 'c'), start=many(alt(S('s'), S('t'), 'c'))),
            {'s': [rx('(?=c)')]}, {}),
    cut0=(g(s=mseq(0, 'a', 'b'), start=alt(seq('c', S('s')), 'd')), {'s': [rx('(?=b)'), ',']}, {}),
    lookahead=(g(s=mseq(1, 'a', 'b'), start=many(seq(la(S('s')), 'a', opt('b')))),
               {'s': [rx('(?=c)')]}, {}),
    reclist=(g(start=alt(mseq(1, '(', many(S('start')), ')'), 'a')), {'start': [')']}, {}),
    rec=(g(p=alt(mseq(1, '(', S('p'), ')'), 'a'), start=S('p')), {'p': [rx('(?=\\))')]}, {}),
    rec_root=(g(start=alt(mseq(1, '(', S('start'), ')'), 'a')), {}, {}),
    mand_la=(g(s=mseq(1, 'a', la('b')), start=many(alt(S('s'), 'b'))), {'s': ['x']}, {}),
    mand_nla=(g(s=mseq(1, 'a', nla('b')), start=many(alt(S('s'), 'c'))), {}, {'s': ['x']}),
    opt_tail=(g(s=mseq(1, 'a', opt('b'), 'c'), start=many(S('s'))), {'s': ['x']}, {}),
    mil=(g(start=seq(('mil', 1, ('a', 1, 1), ('b', 1, 2)), opt('c'))), {}, {}),
    mil_skip=(g(s=('mil', 1, ('a', 1, 1), ('b', 1, 2), ('c', 0, 1)), start=many(seq(S('s'), ','))),
              {}, {'s': [rx('(?=b)')]}),
    mil_resume=(g(s=('mil', 1, ('a', 1, 1), ('b', 1, 1)), start=many(seq(S('s'), ','))),
                {'s': [rx('(?=,)')]}, {}),
    mil2=(g(s=('mil', 2, ('a', 1, 1), ('b', 1, 1), ('c', 1, 1)), start=many(seq(S('s'), ','))),
          {'s': [rx('(?=,)')]}, {}),
    zero=(g(s=mseq(1, 'a', 'b'), start=many(seq(S('s'), many('x')))), {'s': [rx('')]}, {}),
    zero_skip=(g(s=mseq(1, 'a', 'b', 'c'), start=many(S('s'))), {}, {'s': [rx('')]}),
)
COMMENTED = dict(
    com_line=(g(s=mseq(1, 'a', 'b'), start=many(seq(S('s'), opt(',')))), {'s': [rx('(?=,)')]}, {}),
    com_skip=(g(s=mseq(1, 'a', 'b'), start=many(S('s'))), {}, {'s': [rx('(?=b)')]}),
)
DEEP = ('nested2', 'inner', 'skip_two', 'resume_two', 'reclist', 'nested', 'choice', 'com_line')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in list(CASES) + list(COMMENTED):
        n = (6 if name in DEEP else 5) + (0 if q else 1)
        J.append(Job('recover-' + name, 'recover', {'name': name, 'n': n}, weight=2 ** n,
                     tags=['violation', 'clean'],
                     bounds='grammar %s, texts of 0..%d arbitrary characters' % (name, n)))
    for kind in ('str', 'str2', 'rx', 'rxla', 'func', 'two', 'tie', 'cross', 'crossstr', 'wide'):
        for com in (False, True):
            n = 5 if q else 6
            J.append(Job('reentry-%s%s' % (kind, '-com' if com else ''), 'reentry',
                         {'kind': kind, 'com': com, 'n': n}, weight=20,
                         bounds='texts of 0..%d arbitrary characters' % n))
    for kind in ('str', 'str2', 'rx', 'rxla', 'func', 'two', 'wide'):
        n = 4 if q else 6
        J.append(Job('window-' + kind, 'window', {'kind': kind, 'n': n}, weight=10,
                     bounds='texts of 0..%d arbitrary characters, any search window' % n))
    n = 3 if q else 5
    J.append(Job('reentry-parser', 'reentry_parser', {'n': n}, weight=10, tags=['parser', 'other'],
                 bounds='a parser and other rules in any order, texts of 0..%d arbitrary characters' % n))
    J.append(Job('messages', 'messages', {'n': 4 if q else 5}, weight=20,
                 bounds='error message rules of every kind, text of 0..%d characters'
                        % (4 if q else 5)))
    return J


class Violation(Exception):
    def __init__(self, loc):
        self.loc = loc


def first(rule, text, start):
    """first match of the rule in text from start: (begin, end) or None"""
    if isinstance(rule, str):
        i = text.find(rule, start)
        return None if i < 0 else (i, i + len(rule))
    if callable(rule):
        i, k = rule(text, start, len(text))
        return None if i < 0 else (i, i + k)
    m = rule.search(text, start)
    return None if m is None else m.span()


def ref_reentry(text, rules, comments):
    """the closest end of a match of a rule, matches that begin or end inside of a comment
    not counting; None if there is none"""
    best = None
    for rule in rules:
        start = 0
        while True:
            m = first(rule, text, start)
            if m is None:
                break
            inside = [b for a, b in comments if a < m[1] < b or (a < m[0] < b and not b <= m[1])]
            if not inside:
                if best is None or m[1] < best:
                    best = m[1]
                break
            start = inside[0]
    return best


def ref_rule(text, rules, comments):
    """the number of the first rule that yields the closest re-entry point"""
    points = [ref_reentry(text, [rule], comments) for rule in rules]
    best = ref_reentry(text, rules, comments)
    return 0 if best is None else points.index(best) + 1


class Ref:
    def __init__(self, rules, resume, skip, comment=None):
        self.rules, self.resume, self.skip, self.comment = rules, resume, skip, comment
        self.errors = []

    def reentry(self, s, loc, rules):
        if not rules:
            return None
        rest = s[loc:]
        comments = [m.span() for m in self.comment.finditer(rest)] if self.comment else []
        return ref_reentry(rest, rules, comments)

    def call(self, t, s, i, sym):
        """a parser is called: errors may be caught here"""
        t = norm(t)
        if t[0] == 'sym':
            body = self.rules[t[1]]
            f = self.call if body[0] == 'sym' else self.parse
            return self.guard(lambda: f(body, s, i, t[1]), s, t[1], t[1] == 'start')
        return self.guard(lambda: self.parse(t, s, i, sym), s, sym, False)

    def guard(self, f, s, sym, is_start):
        try:
            return f()
        except Violation as v:
            k = self.reentry(s, v.loc, self.resume.get(sym, []))
            if k is not None:
                return v.loc + k
            raise

    def parse(self, t, s, i, sym):
        op = t[0]
        if op in ('seq', 'mseq'):
            m, items = (t[1], t[2:]) if op == 'mseq' else (99, t[1:])
            for nr, x in enumerate(items):
                j = self.call(x, s, i, sym)
                if j is None:
                    if nr < m:
                        return None
                    if i not in self.errors:
                        self.errors.append(i)
                    k = self.reentry(s, i, self.skip.get(sym, []))
                    if k is None:
                        raise Violation(i)
                    i += k
                    j = self.call(x, s, i, sym)
                    if j is None:
                        j = i
                i = j
            return i
        if op == 'mil':
            m, items = t[1], t[2:]
            count = [0] * len(items)
            while True:
                for k, x in enumerate(items):
                    if count[k] < x[2]:
                        j = self.call(x[0], s, i, sym)
                        if j is not None:
                            i = j
                            count[k] += 1
                            break
                else:
                    ok = [c >= x[1] for c, x in zip(count, items)]
                    if not all(ok[:m]):
                        return None
                    if all(ok):
                        return i
                    if i not in self.errors:
                        self.errors.append(i)
                    k = self.reentry(s, i, self.skip.get(sym, []))
                    if k is None:
                        raise Violation(i)
                    if k == 0:
                        return i
                    i += k
        if op == 'alt':
            for x in t[1:]:
                j = self.call(x, s, i, sym)
                if j is not None:
                    return j
            return None
        if op == 'opt':
            j = self.call(t[1], s, i, sym)
            return i if j is None else j
        if op == 'many':
            while True:
                j = self.call(t[1], s, i, sym)
                if j is None:
                    return i
                if j == i:
                    return i
                i = j
        if op == 'la':
            return i if self.call(t[1], s, i, sym) is not None else None
        if op == 'nla':
            return i if self.call(t[1], s, i, sym) is None else None
        return match(self.rules, t, s, i)


def lossless(cx, name, gr, s):
    full = gr(s, complete_match=True)
    cx.check(full.content == s, 'nothing is lost or parsed twice',
             lambda: (name, s, full.content, full.as_sxpr()))
    pos = 0
    for leaf in full.select_if(lambda nd: not nd.children, include_root=True):
        cx.check(leaf.pos == pos, 'position of leaf', lambda: (name, s, leaf.pos, pos))
        pos += len(leaf.content)
    return full


def recover(cx, name, n):
    rules, resume, skip = CASES.get(name) or COMMENTED[name]
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    attrs = {'resume_rules__': dict(resume), 'skip_rules__': dict(skip)}
    com = None
    if name in COMMENTED:
        com = re.compile('#[^#]*#')
        attrs.update(COMMENT__='#[^#]*#', comment_rx__=com)
    cls = grammar_class(rules, attrs=attrs, minimal=True)
    gr = cls(static_analysis=False)
    tree = gr(s, complete_match=False)
    ref = Ref(rules, resume, skip, com)
    try:
        end = ref.call(('sym', 'start'), s, 0, 'start')
    except Violation as v:
        end = v.loc     # the start parser ends at the violation
    errors = [e for e in tree.errors if e.code in MAND]
    cx.check([e.pos for e in errors] == sorted(ref.errors), 'one error per violation',
             lambda: (name, s, [str(e) for e in tree.errors], ref.errors))
    if ref.errors:
        cx.tag('violation')
    else:
        cx.tag('clean')
    if end is not None:
        cx.check(tree.content == s[:end], 'parsing continues where the rule says',
                 lambda: (name, s, tree.content, end, tree.as_sxpr()))
        if len(s) > 0:
            cx.check(all(e.code in MAND for e in tree.errors), 'no other errors',
                     lambda: (name, s, [str(e) for e in tree.errors]))
    full = lossless(cx, name, cls(static_analysis=False), s)
    if end is not None and end == len(s):
        cx.check([e.pos for e in full.errors if is_error(e.code)] == [e.pos for e in errors],
                 'same errors', lambda: (name, s, [str(e) for e in full.errors]))
    elif not ref.errors:
        cx.check(full.errors and not any(e.code in MAND for e in full.errors[:1])
                 , 'incomplete match is reported', lambda: (name, s))
    gr = cls(static_analysis=False)
    gr.max_parser_dropouts__ = 3
    lossless(cx, name, gr, s)
    cx.observe([e.pos for e in errors], tree.content, len(full.errors))


RULES = dict(str=['x'], str2=['xy'], rx=[rx('x+y?')], rxla=[rx('(?=x)|y')], func=[find_x],
             two=[rx('y'), 'xx', rx('(?=z)')], tie=[rx('x+'), 'yx', 'x'], cross=[rx('x#?|#x')], crossstr=['x#'],
             wide=[rx('x.*y')])


def reentry(cx, kind, com, n):
    s = cx.str('t', n, ANY)
    rules = RULES[kind]
    crx = re.compile('#[^#]*#') if com else re.compile('(?!)')
    pos, node = reentry_point(StringView(s), rules, crx, -1, 'skip')
    comments = [m.span() for m in crx.finditer(s)]
    expected = ref_reentry(s, rules, comments)
    cx.check(pos == (-1 if expected is None else expected), 'closest re-entry point',
             lambda: (kind, s, pos, expected))
    cx.check(node.content == s[:max(pos, 0)], 'skipped text', lambda: (kind, s, pos, node.content))
    nr = ref_rule(s, rules, comments)
    cx.check(node.name == 'skip_R%d__' % nr, 'number of the rule', lambda: (kind, s, pos, nr, node.name))
    for a, b in comments:
        cx.check(not (a < pos < b), 'not inside of a comment', lambda: (kind, s, pos, (a, b)))
    cx.observe(pos, node.content)


def window(cx, kind, n):
    """only the text within the search window counts"""
    s = cx.str('t', n, ANY)
    w = cx.int('w', 0, n + 1)
    pos, node = reentry_point(StringView(s), RULES[kind], re.compile('(?!)'), w, 'skip')
    expected = ref_reentry(s[:w], RULES[kind], [])
    cx.check(pos == (-1 if expected is None else expected), 'closest re-entry point within the window',
             lambda: (kind, s, w, pos, expected))
    cx.check(node.content == s[:max(pos, 0)], 'skipped text', lambda: (kind, s, pos, node.content))
    cx.observe(pos, node.content)


def reentry_parser(cx, n):
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    i = cx.int('i', 0, n)
    cx.assume(i <= len(s))
    gr = grammar_class(g(start=('many', ANYC), P=('seq', ('many', ('seq', ('nla', 'z'), ANYC)), 'z')))
    gr = gr(static_analysis=False)
    gr(s)
    others = cx.choice('others', [['x'], [rx('x+'), 'y']])
    at = cx.int('at', 0, len(others))
    rules = list(others)
    rules.insert(at, gr['P'])
    pos, node = reentry_point(StringView(s)[i:], rules, re.compile('(?!)'), -1, 'skip')
    rest = s[i:]
    points = [ref_reentry(rest, [r], []) if not isinstance(r, Parser) else
              rest.find('z') + 1 or None for r in rules]
    found = [p for p in points if p is not None]
    expected = min(found) if found else -1
    cx.check(pos == expected, 'closest re-entry point', lambda: (s, rules, pos, points))
    cx.check(node.content == rest[:max(pos, 0)], 'skipped text', lambda: (s, pos, node.content))
    if found:
        cx.check((node.name == 'P') == (points.index(expected) == at), 'node of the parser only if it applies',
                 lambda: (s, i, at, node.name))
        cx.tag('parser' if points.index(expected) == at else 'other')
    cx.observe(pos, node.name, node.content)


def starts_q(text):
    return text[0:1] == 'q'


def messages(cx, n):
    s = cx.str('t', n, ANY)
    attrs = {'error_messages__': {'start': [('x', 'with x: {1}'), (rx('y+z'), '1234:yz {0}'),
                                            (starts_q, 'q'), ('', 'other {0} {1}')]}}
    rules = g(start=mseq(1, 'a', 'b'))
    gr = grammar_class(rules, attrs=attrs)(static_analysis=False)
    text = 'a' + s
    tree = gr(text, complete_match=False)
    if s[:1] == 'b':
        cx.check(not tree.errors, 'no error')
        return
    rest = s
    shown = rest[:10].replace('\n', '\\n')
    found = '»' + shown + ('...' if len(rest) > 10 else '') + '«' if len(rest) > 0 \
        else 'END OF FILE'
    code = MANDATORY_CONTINUATION
    if rest.startswith('x'):
        msg = 'with x: ' + found
    elif rx('y+z').match(rest):
        msg, code = 'yz »b«', 1234
    elif rest.startswith('q'):
        msg = 'q'
    else:
        msg = 'other »b« ' + found
    cx.check(len(tree.errors) == 1, 'one error', lambda: (s, tree.errors))
    e = tree.errors[0]
    cx.check(e.pos == 1 and e.code == code and e.message == msg, 'configured message',
             lambda: (s, e.pos, e.code, e.message, msg))
    cx.observe(e.message)
