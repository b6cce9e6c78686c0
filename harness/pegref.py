"""Grammar terms, their translation into DHParser parsers, and an independent reference
interpreter for the semantics of parsing expression grammars.

terms: ('t', s) literal, ('i', s) literal ignoring case, ('r', regex), ('ws', regex),
('any',), ('always',), ('never',), ('seq', ...), ('alt', ...), ('opt', x), ('many', x),
('many1', x), ('cnt', x, lo, hi), ('il', (x, lo, hi), ...), ('la', x), ('nla', x),
('lb', leaf), ('nlb', leaf) -- the leaf is matched against the reversed text --,
('syn', x), ('sym', name)
"""
import re
from DHParser.parse import (
    Grammar, Text, IgnoreCase, RegExp, Whitespace, AnyChar, Always, Never, Option, ZeroOrMore,
    OneOrMore, Counted, Alternative, Series, Interleave, Lookahead, NegativeLookahead,
    Lookbehind, NegativeLookbehind, Synonym, Forward, Capture, Retrieve,
    Pop, last_value, optional_last_value, matching_bracket, RX_NEVER_MATCH)


def no_bom(cx, s):
    if len(s) > 0:
        cx.assume((s[0] != '\ufeff') & (s[0] != '\uffef'))
    if len(s) > 2:
        cx.assume(s[:3] not in ('\xef\xbb\xbf', '\x00\x00\ufeff', '\x00\x00\ufffe'))


def T(s):
    return ('t', s)


def norm(t):
    return ('t', t) if isinstance(t, str) else t


def syms(t, acc):
    t = norm(t)
    if t[0] in ('sym', 'ret', 'pop', 'opop', 'bpop'):
        acc.add(t[1])
    elif t[0] in ('il', 'mil'):
        for x in t[1 if t[0] == 'il' else 2:]:
            syms(x[0], acc)
    else:
        for x in t[1:]:
            if isinstance(x, tuple) or (isinstance(x, str) and t[0] in ('seq', 'alt', 'opt',
                                        'many', 'many1', 'la', 'nla', 'cnt', 'syn',
                                        'cap', 'mseq')):
                syms(x, acc)
    return acc


def recursive(rules):
    deps = {n: syms(t, set()) for n, t in rules.items()}
    rec = set()
    for n in rules:
        seen, todo = set(), list(deps[n])
        while todo:
            m = todo.pop()
            if m not in seen:
                seen.add(m)
                todo.extend(deps[m])
        if n in seen:
            rec.add(n)
    return rec


def leaf(t):
    t = norm(t)
    return Text(t[1]) if t[0] == 't' else RegExp(t[1])


def grammar_class(rules, root='start', attrs=None, mk=None, minimal=False):
    """a grammar class like the ones the EBNF compiler generates; `minimal`: only symbols
    used before their definition become Forward objects (definitions bottom up in the order of
    `rules`, the root last), otherwise all recursive symbols"""
    fields = dict(source_hash__='', static_analysis_pending__=[],
                  parser_initialization__=['upon instantiation'], COMMENT__=r'',
                  comment_rx__=RX_NEVER_MATCH, WHITESPACE__=r'\s*', WSP_RE__=r'\s*',
                  resume_rules__={}, skip_rules__={}, error_messages__={})
    fields.update(attrs or {})
    done, fwd, busy = {}, {}, set()
    rec = recursive(rules)

    def sym(name):
        if name in rec and name not in fwd and not (minimal and name in done):
            fwd[name] = Forward()
        if name in fwd:
            return fwd[name]
        return define(name)

    def define(name):
        if name not in done:
            p = tr(rules[name])
            if any(p is q for q in done.values()) or isinstance(p, Forward):
                p = Synonym(p)      # a bare reference
            done[name] = p
        return done[name]

    def tr(t):
        t = norm(t)
        op = t[0]
        if mk is not None:
            p = mk(t, tr)
            if p is not None:
                return p
        if op == 't': return Text(t[1])
        if op == 'i': return IgnoreCase(t[1])
        if op == 'r': return RegExp(t[1])
        if op == 'ws': return Whitespace(t[1])
        if op == 'any': return AnyChar()
        if op == 'always': return Always()
        if op == 'never': return Never()
        if op == 'seq': return Series(*[tr(x) for x in t[1:]])
        if op == 'alt': return Alternative(*[tr(x) for x in t[1:]])
        if op == 'opt': return Option(tr(t[1]))
        if op == 'many': return ZeroOrMore(tr(t[1]))
        if op == 'many1': return OneOrMore(tr(t[1]))
        if op == 'cnt': return Counted(tr(t[1]), (t[2], t[3]))
        if op == 'il':
            return Interleave(*[tr(x[0]) for x in t[1:]],
                              repetitions=[(x[1], x[2]) for x in t[1:]])
        if op == 'la': return Lookahead(tr(t[1]))
        if op == 'nla': return NegativeLookahead(tr(t[1]))
        if op == 'lb': return Lookbehind(leaf(t[1]))
        if op == 'nlb': return NegativeLookbehind(leaf(t[1]))
        if op == 'syn': return Synonym(tr(t[1]))
        if op == 'cap': return Capture(tr(t[1]))
        if op == 'ret': return Retrieve(sym(t[1]))
        if op == 'pop': return Pop(sym(t[1]))
        if op == 'opop': return Pop(sym(t[1]), match_func=optional_last_value)
        if op == 'bpop': return Pop(sym(t[1]), match_func=matching_bracket)
        if op == 'mseq': return Series(*[tr(x) for x in t[2:]], mandatory=t[1])
        if op == 'mil':
            return Interleave(*[tr(x[0]) for x in t[2:]], mandatory=t[1],
                              repetitions=[(x[1], x[2]) for x in t[2:]])
        if op == 'sym': return sym(t[1])
        raise ValueError(op)
    for name in rules:
        if name != root:
            define(name)
    define(root)
    fields.update((name, f) for name, f in fwd.items())
    fields.update((name, p) for name, p in done.items() if name not in fwd)
    for name, f in fwd.items():
        f.set(done[name])
    fields['root__'] = fields[root]
    return type('G', (Grammar,), fields)


def grammar(rules, root='start', attrs=None, mk=None, minimal=False):
    return grammar_class(rules, root, attrs, mk, minimal)(static_analysis=False)


def match(rules, t, s, i):
    """end of the match of term t in s at i or None"""
    t = norm(t)
    op = t[0]
    if op == 't':
        k = len(t[1])
        return i + k if s[i:i + k] == t[1] else None
    if op == 'i':
        k = len(t[1])
        return i + k if s[i:i + k].lower() == t[1].lower() else None
    if op in ('r', 'ws'):
        m = re.compile(t[1]).match(s, i)
        return m.end() if m else None
    if op == 'any':
        return i + 1 if i < len(s) else None
    if op == 'always':
        return i
    if op == 'never':
        return None
    if op == 'seq':
        for x in t[1:]:
            i = match(rules, x, s, i)
            if i is None:
                return None
        return i
    if op == 'alt':
        for x in t[1:]:
            j = match(rules, x, s, i)
            if j is not None:
                return j
        return None
    if op == 'opt':
        j = match(rules, t[1], s, i)
        return i if j is None else j
    if op in ('many', 'many1', 'cnt'):
        lo, hi = {'many': (0, 99), 'many1': (1, 99)}.get(op) or (t[2], t[3])
        k = 0
        while k < hi:
            j = match(rules, t[1], s, i)
            if j is None:
                break
            k += 1
            if j == i:          # an empty match can be repeated at will
                k = max(k, lo)
                break
            i = j
        return i if k >= lo else None
    if op == 'il':
        count = [0] * len(t[1:])
        go = True
        while go:
            go = False
            for k, (x, lo, hi) in enumerate(t[1:]):
                if count[k] < hi:
                    j = match(rules, x, s, i)
                    if j is not None:
                        i = j
                        count[k] += 1
                        go = True
                        break
        return i if all(c >= x[1] for c, x in zip(count, t[1:])) else None
    if op == 'la':
        return i if match(rules, t[1], s, i) is not None else None
    if op == 'nla':
        return i if match(rules, t[1], s, i) is None else None
    if op in ('lb', 'nlb'):
        r = s[:i][::-1]
        ok = match(rules, t[1], r, 0) is not None
        return i if ok == (op == 'lb') else None
    if op == 'syn':
        return match(rules, t[1], s, i)
    if op == 'sym':
        return match(rules, rules[t[1]], s, i)
    raise ValueError(op)


BRACKETS = {'(': ')', '[': ']', '{': '}', '<': '>'}


def cmatch(rules, t, s, i, st):
    """like match, with variables: (end, stacks) or None; stacks: {name: tuple of values}"""
    t = norm(t)
    op = t[0]
    if op == 'seq':
        for x in t[1:]:
            r = cmatch(rules, x, s, i, st)
            if r is None:
                return None
            i, st = r
        return i, st
    if op == 'alt':
        for x in t[1:]:
            r = cmatch(rules, x, s, i, st)
            if r is not None:
                return r
        return None
    if op == 'opt':
        return cmatch(rules, t[1], s, i, st) or (i, st)
    if op in ('many', 'many1', 'cnt'):
        lo, hi = {'many': (0, 99), 'many1': (1, 99)}.get(op) or (t[2], t[3])
        k = 0
        while k < hi:
            r = cmatch(rules, t[1], s, i, st)
            if r is None:
                break
            k += 1
            st = r[1]
            if r[0] == i:
                k = max(k, lo)
                break
            i = r[0]
        return (i, st) if k >= lo else None
    if op == 'la':
        return (i, st) if cmatch(rules, t[1], s, i, st) is not None else None
    if op == 'nla':
        return (i, st) if cmatch(rules, t[1], s, i, st) is None else None
    if op == 'sym':
        r = cmatch(rules, rules[t[1]], s, i, st)
        if r is not None and rules[t[1]][0] == 'cap':
            new = dict(r[1])
            new[t[1]] = new.get(t[1], ()) + (s[i:r[0]],)
            return r[0], new
        return r
    if op in ('cap', 'syn'):
        return cmatch(rules, t[1], s, i, st)
    if op == 'ret':
        if not st.get(t[1]):
            r = cmatch(rules, ('sym', t[1]), s, i, st)
            if r is None:
                return None
            st = r[1]
        v = st[t[1]][-1]
        return (i + len(v), st) if s[i:i + len(v)] == v else None
    if op in ('pop', 'opop', 'bpop'):
        if not st.get(t[1]):
            return None
        v = st[t[1]][-1]
        if op == 'bpop':
            v = ''.join(BRACKETS.get(c, c) for c in v)
        if s[i:i + len(v)] != v:
            if op != 'opop':
                return None
            v = ''
        new = dict(st)
        new[t[1]] = new[t[1]][:-1]
        return i + len(v), new
    j = match(rules, t, s, i)
    return None if j is None else (j, st)


def nullable(t, rules):
    """may the term match the empty string (conservative for regular expressions)"""
    t = norm(t)
    op = t[0]
    if op in ('t', 'i'):
        return not t[1]
    if op in ('r', 'ws'):
        return re.compile(t[1]).match('') is not None or '?' in t[1]
    if op == 'never' or op == 'any':
        return False
    if op == 'seq':
        return all(nullable(x, rules) for x in t[1:])
    if op == 'alt':
        return any(nullable(x, rules) for x in t[1:])
    if op in ('many1', 'syn'):
        return nullable(t[1], rules)
    if op == 'cnt':
        return t[2] == 0 or nullable(t[1], rules)
    if op == 'il':
        return all(x[1] == 0 or nullable(x[0], rules) for x in t[1:])
    if op == 'sym':
        return nullable(rules[t[1]], rules)
    return True


S = 'start'


def g(**rules):
    return rules


# the family: name -> rules with a rule `start`
FAMILY = dict(
    text=g(start='ab'),
    icase=g(start=('seq', ('i', 'aB'), ('i', 'ß'))),
    icase2=g(start=('many1', ('i', 'k'))),
    regex=g(start=('seq', ('r', '[a-c]+'), ('r', 'c|$'))),
    regex_empty=g(start=('seq', ('r', 'a*'), ('r', 'b?'), 'c')),
    anychar=g(start=('seq', ('many', ('seq', ('nla', 'b'), ('any',))), 'b')),
    alwaysnever=g(start=('alt', ('seq', 'a', ('never',)), ('seq', ('always',), 'b'),
                         ('seq', 'a', ('always',)))),
    seq=g(start=('seq', 'a', 'b', 'c')),
    choice=g(start=('alt', 'a', 'ab', 'b')),
    choice_back=g(start=('alt', ('seq', 'a', 'b', 'c'), ('seq', 'a', 'b'), 'a')),
    option=g(start=('seq', ('opt', 'a'), ('opt', ('seq', 'a', 'b')), 'c')),
    many=g(start=('seq', ('many', 'ab'), 'a')),
    many_greedy=g(start=('seq', ('many', 'a'), 'a')),
    many_back=g(start=('seq', ('many', ('seq', 'a', 'b')), ('opt', 'a'), 'c')),
    many_empty=g(start=('seq', ('many', ('opt', 'a')), 'b')),
    many_zero=g(start=('seq', ('many', ('many', 'a')), 'b')),
    many1=g(start=('seq', ('many1', ('alt', 'a', 'bc')), 'b')),
    many1_empty=g(start=('seq', ('many1', ('r', 'a*')), 'b')),
    cnt=g(start=('seq', ('cnt', 'a', 2, 3), 'b')),
    cnt_opt=g(start=('seq', ('opt', ('cnt', 'a', 2, 3)), 'a', ('opt', 'b'))),
    cnt_many=g(start=('seq', ('many', ('cnt', 'a', 2, 2)), ('many', 'a'), 'b')),
    cnt_zero=g(start=('seq', ('cnt', 'a', 0, 2), 'a')),
    cnt_empty=g(start=('seq', ('cnt', ('opt', 'a'), 2, 4), 'b')),
    cnt_alt=g(start=('alt', ('cnt', ('seq', 'a', 'b'), 2, 3), ('seq', 'a', 'b', 'a'))),
    cnt_nested=g(start=('many1', ('cnt', ('cnt', 'a', 1, 2), 2, 2))),
    il=g(start=('il', ('a', 1, 1), ('b', 1, 1), ('c', 1, 1))),
    il_rep=g(start=('seq', ('il', ('a', 1, 2), ('b', 0, 1)), ('opt', 'a'))),
    il_opt=g(start=('seq', ('opt', ('il', ('a', 2, 2), ('b', 1, 1))), 'a')),
    il_order=g(start=('il', ('a', 0, 2), ('ab', 1, 1))),
    il_zero=g(start=('seq', ('il', ('a', 0, 1), ('b', 0, 1)), 'c')),
    la=g(start=('seq', ('la', 'ab'), ('r', 'a.?'))),
    nla=g(start=('seq', ('many', ('seq', ('nla', 'bc'), ('r', '[ab]'))), 'bc')),
    la_end=g(start=('seq', 'a', ('la', 'b'))),
    nla_nla=g(start=('seq', ('nla', ('nla', 'a')), ('any',))),
    lb=g(start=('many1', ('alt', ('seq', 'a', ('lb', ('r', 'a'))), ('seq', ('lb', ('r', 'aa')), 'b'),
                          ('seq', ('nlb', ('r', 'b|$')), 'c')))),
    lb_text=g(start=('many1', ('alt', 'a', 'b', ('seq', ('lb', ('t', 'ba')), 'c'),
                               ('seq', ('nlb', ('t', 'ba')), 'd')))),
    memo=g(A=('seq', 'a', ('opt', 'b')), start=('alt', ('seq', ('sym', 'A'), 'c'),
                                                ('seq', ('sym', 'A'), ('sym', 'A')),
                                                ('sym', 'A'))),
    memo_la=g(A=('many1', 'a'), start=('seq', ('la', ('seq', ('sym', 'A'), 'b')),
                                       ('sym', 'A'), 'b', ('opt', ('sym', 'A')))),
    rec=g(start=('alt', ('seq', 'a', ('opt', ('sym', 'start')), 'b'), 'c')),
    rec_pal=g(start=('alt', ('seq', 'a', ('sym', 'start'), 'a'), 'a')),
    rec_mut=g(start=('seq', 'a', ('opt', ('sym', 'B'))), B=('alt', ('seq', 'b', ('sym', 'start')), 'c')),
    anbncn=g(start=('seq', ('la', ('seq', ('sym', 'A'), 'c')), ('many1', 'a'), ('sym', 'B'),
                    ('nla', ('any',))),
             A=('seq', 'a', ('opt', ('sym', 'A')), 'b'), B=('seq', 'b', ('opt', ('sym', 'B')), 'c')),
    ws=g(W=('ws', r'[ \n]*'), start=('seq', 'a', ('sym', 'W'), ('many', ('seq', 'b', ('sym', 'W'))))),
    synonym=g(A=('many', 'a'), B=('sym', 'A'), start=('seq', ('sym', 'B'), 'b', ('syn', 'a'))),
    list=g(item=('r', '[a-z]'), start=('seq', ('sym', 'item'),
                                       ('many', ('seq', ',', ('sym', 'item'))), ('opt', ','))),
    dangling=g(start=('alt', ('seq', 'a', ('sym', 'start'), 'b', ('sym', 'start')),
                      ('seq', 'a', ('sym', 'start')), 'c')),
)

# operands of the symbolic programs
INNER = [T('a'), T(''), ('i', 'B'), ('r', 'b?'), ('seq', 'a', 'b'), ('alt', 'a', 'ab'),
         ('opt', 'a'), ('many', 'a'), ('many1', 'ab'), ('cnt', 'a', 2, 2),
         ('cnt', ('alt', 'a', 'b'), 1, 2),
         ('il', ('a', 1, 1), ('b', 1, 1)), ('il', ('a', 0, 1), ('b', 1, 2)), ('la', 'b'),
         ('nla', 'a'), ('lb', ('r', 'b')), ('any',), ('never',), ('sym', 'A'),
         ('seq', ('sym', 'A'), ('nla', 'b'))]
RULE_A = ('alt', ('seq', 'b', 'a'), 'b')
OUTER = {
    'seq': lambda x, y: ('seq', x, y),
    'seq3': lambda x, y: ('seq', x, 'a', y),
    'alt': lambda x, y: ('seq', ('alt', x, y), ('opt', 'b')),
    'altseq': lambda x, y: ('alt', ('seq', x, 'b'), ('seq', x, y)),
    'opt': lambda x, y: ('seq', ('opt', x), y),
    'many': lambda x, y: ('seq', ('many', x), y),
    'many1': lambda x, y: ('seq', ('many1', x), y),
    'manyalt': lambda x, y: ('many', ('alt', x, ('seq', 'c', y))),
    'cnt': lambda x, y: ('seq', ('opt', ('cnt', x, 2, 3)), y),
    'il': lambda x, y: ('seq', ('opt', ('il', (x, 1, 2), (y, 0, 1))), ('opt', 'a')),
    'la': lambda x, y: ('seq', ('la', x), y),
    'nla': lambda x, y: ('seq', ('nla', ('seq', x, y)), ('opt', x), ('any',)),
}
