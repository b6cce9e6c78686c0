"""P23: parsers compiled from EBNF match what the source denotes, in every notation."""
import itertools
import re
from hutil import Job, ANY
from pegref import FAMILY, INNER, OUTER, RULE_A, T, norm, match, nullable, no_bom
from ebnfsrc import source, ematch, named
import P06
import P08
from DHParser.dsl import grammar_provider
from DHParser.error import has_errors
from DHParser.configuration import set_config_value

ASSUMPTIONS = ['programs are accepted by the static analysis of the compiler',
               'alternatives of literals are not preceded by a prefix of theirs (the compiler '
               'reorders these and warns about it, as documented)',
               'within one literal or regular expression no mode-switches like (?i) occur when '
               'optimizations are on',
               'with optimizations: programs that match the same with and without backtracking '
               '(see the known finding)',
               'calls of the same macro are not nested']

NOTATIONS = dict(
    plain=dict(), sfx=dict(sfx=True), grp=dict(grp=True), grpsfx=dict(grp=True, sfx=True),
    quot=dict(q='"'), apos=dict(q="'"), tick=dict(q='’'), acute=dict(q='´'),
    hidden=dict(hidden=True), macro=dict(macro=True), times=dict(times=True), gap0=dict(gap=''),
    c0x=dict(chars='0x'), cxx=dict(chars='\\x'), rng=dict(chars='[0x]'), rng2=dict(chars='[0x-]'),
    turned=dict(turned=True), rngs=dict(chars='/[]/'), rngs2=dict(chars='/[]|[]/'),
    heur=dict(define=' ::= ', end=';', sep=', '), heur2=dict(define=' := ', sep=' '),
    heurp=dict(define=' ::= ', paren=True), heurx=dict(define=' ::= ', chars='#x'),
    heurlead=dict(define=' ::= ', lead='| '),
    heurturned=dict(define=' ::= ', end=';', turned=True),
    peg=dict(define=' <- ', alt=' / ', sfx=True, q="'"))
FEW = ('plain', 'sfx', 'grp', 'hidden', 'macro', 'rngs', 'heur2')
OPTS = ('none', 'sequence', 'alternative', 'lookahead', 'literal', 'rearrange_alternative', 'all')

# rejected by the static analysis, or reordered (see ASSUMPTIONS)
EXCLUDED = ('many_empty', 'many_zero', 'many1_empty', 'cnt_empty', 'alwaysnever', 'nla_nla',
            'choice')
SLOW = ('icase', 'icase2', 'many_back', 'anbncn', 'dangling', 'lb_text', 'regex_empty', 'anychar')
COMMA = ('cnt_alt', 'lb_text')      # known: "a | b, c" in the heuristic notation


def heuristic(notation):
    return notation.startswith('heur') or notation == 'peg'


def text_of(rules, notation, opt):
    d = [('literalws', 'none')]
    if heuristic(notation):
        d.append(('flavor', 'heuristic'))
    if opt != 'none':
        d.append(('optimizations', opt))
    return source(rules, d, **NOTATIONS[notation])


def compiled(src, cache={}):
    """(grammar class, generated code) or the error messages"""
    if src not in cache:
        set_config_value('infinite_loop_warning', False)
        try:
            factory = grammar_provider(src)
            code = re.sub(r'source_hash__ = "[^"]*"', '', factory.python_src__)
            cache[src] = (type(factory()), code)
        except Exception as e:
            cache[src] = ([str(x) for x in getattr(e, 'errors', [repr(e)])], src)
    return cache[src]


def ends(rules, t, s, i):
    """all ends of matches, if every choice were open to backtracking"""
    t = norm(t)
    op = t[0]
    if op == 'seq':
        cur = {i}
        for x in t[1:]:
            cur = {e for j in cur for e in ends(rules, x, s, j)}
        return cur
    if op == 'alt':
        return set().union(*[ends(rules, x, s, i) for x in t[1:]])
    if op == 'opt':
        return ends(rules, t[1], s, i) | {i}
    if op in ('many', 'many1', 'cnt'):
        lo, hi = {'many': (0, 9), 'many1': (1, 9)}.get(op) or t[2:]
        out, cur = set(), {i}
        for k in range(min(hi, 6) + 1):
            if k >= lo:
                out |= cur
            cur = {e for j in cur for e in ends(rules, t[1], s, j)}
        return out
    if op == 'il':
        return {e for p in itertools.permutations(t[1:])
                for e in ends(rules, ('seq',) + tuple(('cnt',) + x for x in p), s, i)}
    if op == 'la':
        return {i} if ends(rules, t[1], s, i) else set()
    if op == 'nla':
        return set() if ends(rules, t[1], s, i) else {i}
    if op == 'sym':
        return ends(rules, rules[t[1]], s, i)
    if op == 'syn':
        return ends(rules, t[1], s, i)
    if op == 'r':
        return {e for e in range(i, len(s) + 1) if re.compile(t[1]).fullmatch(s, i, e)}
    j = match(rules, t, s, i)
    return set() if j is None else {j}


def deterministic(rules, cache={}):
    """whether backtracking makes no difference"""
    key = repr(rules)
    if key not in cache:
        cache[key] = len(str(rules)) < 2000 and all(
            _same(rules, ''.join(x)) for n in range(5) for x in itertools.product('abc', repeat=n))
    return cache[key]


def _same(rules, s):
    if any(n in ("start",) and ("('sym', 'start')" in repr(t)) for n, t in rules.items()):
        return True     # recursive symbols are parsers of their own
    r = match(rules, ('sym', 'start'), s, 0)
    return ends(rules, ('sym', 'start'), s, 0) == (set() if r is None else {r})


def variants(cx, rules, notations, opts, cache={}):
    """[(notation, optimization, compiled)], without those that yield the same code"""
    key = repr((rules, notations, opts))
    if key not in cache:
        cache[key] = cx.prepare(_variants, rules, notations, opts)
    return cache[key]


def _variants(rules, notations, opts):
    out, seen = [], set()
    det = None
    for opt in opts:
        if opt != 'none':
            if '(?i)' in text_of(rules, 'plain', 'none'):
                continue
            det = ('cap' in repr(rules) or deterministic(rules)) if det is None else det
            if not det:
                continue
        for nt in notations:
            if nt == 'peg' and '/' in text_of(rules, 'sfx', 'none').replace('//', ''):
                continue            # ambiguous, as documented
            src = text_of(rules, nt, opt)
            c = compiled(src)
            if c[1] not in seen:
                seen.add(c[1])
                out.append((nt, opt, c[0], src))
    return out


def agree(cx, rules, cls, src, s, names, backtrack=None):
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    ref = ematch(rules, ('sym', 'start'), s, 0, {})
    tree = cls(static_analysis=False)(s, 'start', complete_match=False)
    if backtrack is not None and tree.content != ('' if ref is None else s[:ref[0]]) \
            and cx.known(backtrack[0]):
        cx.check(len(tree.content) in backtrack[1](s), 'matches with backtracking',
                 lambda: (src, s, tree.content))
    elif ref is None:
        cx.tag('fail')
        cx.check(tree.content == '', 'nothing is matched', lambda: (src, s, tree.content))
    else:
        cx.tag('match')
        cx.check(tree.content == s[:ref[0]], 'the same text is matched',
                 lambda: (src, s, ref, tree.content))
        cx.check(any(ref[1].values()) or not has_errors(tree.errors), 'no errors', lambda: (src, s, tree.errors))
        names = [n for n in names if rules[n][0] != 'cap']    # retrieved values have that name, too
        cx.check(tuple(named(tree, names, [])) == tuple(x for x in ref[2] if x[0] in names), 'the same symbols',
                 lambda: (src, s, ref, tree.as_sxpr()))
    cx.observe(tree.content, [str(e) for e in tree.errors])


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name, rules in FAMILY.items():
        if name in EXCLUDED:
            continue
        n = (3 if name in SLOW else 4) if q else 5
        J.append(Job('fam-' + name, 'family', {'name': name, 'n': n}, weight=20,
                     tags=['match'] if name != 'many_greedy' else [],
                     bounds='grammar %s, %d notations, %d optimizations, texts of 0..%d arbitrary '
                            'characters' % (name, len(NOTATIONS), len(OPTS), n)))
    J.append(Job('backtracking', 'backtracking', {'n': 4 if q else 5}, weight=10, tags=['match'],
                 bounds='options in one regular expression, texts of 0..%d arbitrary characters'
                        % (4 if q else 5)))
    for o in OUTER:
        n, part = (3, 1) if q else (4, 20)
        for k in range(part):
            pairs = [(x, y) for x in range(len(OPERANDS)) for y in range(len(OPERANDS))
                     if legal(o, OPERANDS[x], OPERANDS[y])
                     and (not q or 'i' not in (OPERANDS[x][0], OPERANDS[y][0])
                         and (x * 7 + y + list(OUTER).index(o)) % 31 == 0)][k::part]
            J.append(Job('prog-%s-%d' % (o, k), 'programs', {'o': o, 'pairs': pairs, 'n': n},
                         weight=30, tags=['match'],
                         bounds='%d grammars %s(x, y), %d notations, with and without '
                                'optimizations, texts of 0..%d arbitrary characters'
                                % (len(pairs), o, len(FEW), n)))
    for name in DIFFS:
        n = 3 if q else 5
        J.append(Job('diff-' + name, 'difference', {'name': name, 'n': n}, weight=10,
                     tags=['match', 'fail'], bounds='difference %s, texts of 0..%d arbitrary characters'
                                                    % (name, n)))
    for lw in ('none', 'right', 'left', 'both'):
        for k in range(len(DELIMS)):
            if q and (k + len(lw)) % 2:
                continue
            J.append(Job('literal-%s-%d' % (lw, k), 'literal',
                         {'lw': lw, 'k': k, 'n': 1 if q else 2, 'full': not q},
                         weight=10, tags=['match', 'fail'],
                         bounds='literals in %s with %d contents, literalws %s, 0..%d arbitrary '
                                'characters in place of any one of the text'
                                % (DELIMS[k], len(CONTENTS), lw, 1 if q else 2)))
    for nt in CODES:
        J.append(Job('code-' + nt, 'code', {'nt': nt, 'full': not q}, weight=10,
                     tags=['match', 'fail'],
                     bounds='characters written as %s in %d ways, one arbitrary character'
                            % (nt, len(FRAMES))))
    J.append(Job('sets', 'charset', {}, weight=5, tags=['match', 'fail'],
                 bounds='%d character sets, one arbitrary character' % len(SETS)))
    for name in MIXED:
        n = 4 if q else 6
        J.append(Job('mixed-' + name, 'mixed', {'name': name, 'n': n}, weight=10,
                     tags=['match', 'fail'], bounds='program %s with and without each of the '
                     'optimizations, texts of 0..%d arbitrary characters' % (name, n)))
    for name in MACROS:
        n = 4 if q else 6
        J.append(Job('macro-' + name, 'macro', {'name': name, 'n': n}, weight=10,
                     tags=['match'], bounds='program %s with macros, texts of 0..%d '
                                                    'arbitrary characters' % (name, n)))
    for k in range(len(PREFIXES)):
        J.append(Job('reorder-%d' % k, 'reorder', {'k': k, 'n': 2 if q else 3, 'm': 3 if q else 4}, weight=20,
                     tags=['match', 'fail'],
                     bounds='alternatives of 2..%d out of %d literals and expressions, texts of '
                            '0..%d arbitrary characters' % (3 if q else 4, len(PREFIXES), 2 if q else 3)))
    for ws in SPACE:
        n = 3 if q else 6
        J.append(Job('space-' + ws, 'space', {'ws': ws, 'n': n}, weight=20, tags=['match', 'fail'],
                     bounds='whitespace %s, with and without comments, all ways of literalws, '
                            'texts of 0..%d arbitrary characters' % (ws, n)))
    for k, form in enumerate(FORMS):
        J.append(Job('ignorecase-%d' % k, 'ignorecase', {'k': k, 'n': 3 if q else 4}, weight=10,
                 tags=['match', 'fail'], bounds='directive ignorecase on and off, texts of 0..%d '
                                                'arbitrary characters' % (3 if q else 4)))
    for name in P06.CASES:
        n = 4 if q else 6
        J.append(Job('leftrec-' + name, 'leftrec', {'name': name, 'n': n}, weight=10,
                     bounds='left-recursive grammar %s, texts of 0..%d arbitrary characters'
                            % (name, n)))
    for name in P08.CASES:
        if name in P08.LEFTREC or name in ('recmemo', 'recursive', 'auto'):
            continue
        n = 4 if q else 6
        J.append(Job('vars-' + name, 'captured', {'name': name, 'n': n}, weight=10,
                     bounds='grammar %s with variables, texts of 0..%d arbitrary characters'
                            % (name, n)))
    return J


OPERANDS = [('alt', ('r', 'a'), 'ab') if x == ('alt', 'a', 'ab') else x for x in INNER
            if x != ('never',)]


def legal(o, x, y):
    """accepted by the static analysis"""
    opt = ('opt', 'many')
    if x[0] in opt or x == T(''):
        if o not in ('seq', 'seq3', 'altseq', 'il'):
            return False
    if x[0] == 'many1' and o in ('many', 'many1', 'opt', 'nla'):
        return False
    if o == 'il':
        rules = {'A': RULE_A}
        return not (nullable(x, rules) or nullable(y, rules) or y[0] == 'many1')
    return not (o == 'alt' and x == y)


def family(cx, name, n):
    rules = FAMILY[name]
    nts = [x for x in NOTATIONS if not (x == 'heur' and name in COMMA)]
    vs = variants(cx, rules, nts, OPTS)
    nt, opt, cls, src = cx.choice('variant', vs)
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    agree(cx, rules, cls, src, s, rules)


def backtracking(cx, n):
    rules = FAMILY['option']
    src = cx.choice('source', [text_of(rules, 'plain', 'sequence'), text_of(rules, 'plain', 'all')])
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    agree(cx, rules, cx.prepare(compiled, src)[0], src, s, rules,
          ('P23-smartre-backtracking', lambda s: ends(rules, ('sym', 'start'), s, 0)))


def programs(cx, o, pairs, n):
    x, y = cx.choice('xy', pairs)
    x, y = OPERANDS[x], OPERANDS[y]
    rules = {'A': RULE_A, 'start': OUTER[o](x, y)}
    if "'A'" not in repr((x, y)):
        del rules['A']
    nt, opt, cls, src = cx.choice('variant', variants(cx, rules, FEW, ('none', 'all')))
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    agree(cx, rules, cls, src, s, rules)


def leftrec(cx, name, n):
    rules, equiv, assoc = P06.CASES[name]
    nts = ['turned'] if name in P06.CYCLES else ['plain', 'hidden', 'turned']
    if name != 'alternatives':      # / E '?' / looks like a regular expression
        nts.append('peg' if name not in P06.CYCLES else 'heurturned')
    nt, opt, cls, src = cx.choice('variant', variants(cx, rules, nts, ('none',)))
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    end = match(equiv, ('sym', 'start'), s, 0)
    tree = cls(static_analysis=False)(s, 'start', complete_match=False)
    cx.check(tree.content == ('' if end is None else s[:end]), 'the same text is matched',
             lambda: (src, s, end, tree.content))
    cx.observe(tree.content)


def captured(cx, name, n):
    rules = P08.CASES[name]
    nt, opt, cls, src = cx.choice('variant', variants(cx, rules, FEW + ('turned',),
                                                    ('none', 'all')))
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    agree(cx, rules, cls, src, s, rules)


DIFFS = dict(
    chars=('diff', ('r', '[a-c]'), 'b'),
    longer=('diff', ('r', '[ab]+'), 'ab'),
    seq=('seq', ('diff', ('alt', 'ab', 'a'), ('seq', 'a', 'b', 'c')), ('opt', 'c')),
    many=('many1', ('diff', ('any',), ('alt', 'x', ('seq', 'y', 'y')))),
    double=('diff', ('diff', ('r', '[a-c]'), 'b'), 'c'),
    inner=('diff', ('r', '[a-c]'), ('diff', ('r', '[bc]'), 'c')),
)


def difference(cx, name, n):
    rules = {'start': DIFFS[name]}
    nts = ('plain', 'grp', 'hidden', 'heur2')
    vs = [v for v in variants(cx, rules, nts, ('none',))]
    nt, opt, cls, src = cx.choice('variant', vs)
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    agree(cx, rules, cls, src, s, rules)


DELIMS = ['""', "''", '\u2019\u2019', '``', '\u00b4\u00b4']
# Q stands for the delimiter
CONTENTS = ['ab', 'a"b', "a'b", 'a"\'b', 'aQb', 'a\\n', '{a}', 'a\\\\b', '\u2019', '`', '\u00b4', '(?',
            'a\nb', '\\x61', '\\u0062', '%s', '$', '.*', '#']


def literal(cx, lw, k, n, full):
    delim = DELIMS[k]
    content = cx.choice('content', [c for c in CONTENTS if delim[0] not in c])
    opt = cx.choice('opt', ['none', 'all'])
    heur = (full or lw == 'left') and cx.bool('heuristic')
    text = content.replace('Q', delim[0])
    d = [('literalws', lw), ('whitespace', '/[ ]*/')]
    if opt != 'none':
        d.append(('optimizations', opt))
    if heur:
        d.append(('flavor', 'heuristic'))
    src = ''.join('@ %s = %s\n' % x for x in d) + 'start = `<` %s%s%s `>`\n' % (
        delim[0], content.replace('Q', '\\' + delim[0]), delim[1])
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    i = cx.choice('at', list(range(len(text) + 3)))
    full = '<' + text + '>'
    s = full[:i] + cx.str('t', n, ANY) + full[i + 1:]
    no_bom(cx, s)
    ws = ('r', '[ ]*')
    left = [ws] if lw in ('left', 'both') and delim[0] != '`' else []
    right = [ws] if lw in ('right', 'both') and delim[0] != '`' else []
    agree(cx, {'start': tuple(['seq', '<'] + left + [text] + right + ['>'])}, cls, src, s, ())


CHARS = [0x61, 0x5c, 0x5e, 0x5d, 0x5b, 0x2d, 0x2f, 0x0a, 0x20, 0x7c, 0x24, 0x27, 0x22, 0xe4,
         0x1F600, 0x60, 0x7b, 0x28]
CODES = {'0x': '0x%x', '%x': '%%x%x', '#x': '#x%x', '\\x': '\\x%02x', '\\u': '\\u%04x',
         '\\U': '\\U%08x', 'U+': 'U+%04x'}
FRAMES = ['%s', '[%s]', '[%s-%s]', '/[%s]/']


def code(cx, nt, full):
    frames = FRAMES[1:] if nt == 'U+' else FRAMES
    j = cx.choice('frame', list(range(len(frames))))
    chars = [c for c in CHARS if (len('%x' % c) < {'\\x': 3, '\\u': 5}.get(nt, 9))]
    c = cx.choice('char', chars if full else chars[j % 2::2])
    flavor = cx.choice('flavor', ['heuristic'] if nt == '#x' else ['dhparser', 'heuristic'])
    src = '@ literalws = none\n@ flavor = %s\nstart = `<` %s `>`\n' % (
        flavor, frames[j].replace('%s', CODES[nt] % c))
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    s = '<' + cx.str('t', 1, ANY) + '>'
    agree(cx, {'start': ('seq', '<', chr(c), '>')}, cls, src, s, ())


SETS = [('[0x61-0x63]', '[a-c]'),
        ('/[a-c]/', '[a-c]'), ('/[0x61-0x63]/', '[a-c]'), ('[%x41-%x5A]', '[A-Z]'),
        ('/[^\\x61-\\x63]/', '[^a-c]'), ('[\\x5b-\\x5e]', r'[\[-\^]'),
        ('[\\u0061-\\u0063]', '[a-c]'), ('[0x9-0xd0x20]', '[\t-\r ]'),
        ('/[a-c]/ | /[x-z]/', '[a-cx-z]'), ('/[a-z]/ - /[b-y]/', '[az]'), ('( 0x61 | 0x62 )', '[ab]'),
        ('0x61 | [\\x62-\\x63]', '[a-c]'), ('[U+0041-U+0043]', '[A-C]'),
        ('[0x0-0x10FFFF]', r'[\s\S]'), ('/[_\\-a]/', r'[_\-a]'), ('[0x10000-0x10FFFF]',
                                                             '[\U00010000-\U0010ffff]')]


def charset(cx):
    src, rx = cx.choice('set', SETS)
    opt = cx.choice('opt', ['none', 'all'])
    src = '@ literalws = none\n@ optimizations = %s\nstart = `<` ( %s ) `>`\n' % (opt, src) \
        if opt != 'none' else '@ literalws = none\nstart = `<` ( %s ) `>`\n' % src
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    s = '<' + cx.str('t', 1, ANY) + '>'
    agree(cx, {'start': ('seq', '<', ('r', rx), '>')}, cls, src, s, ())


SPACE = dict(horizontal=r'[\t ]*', vertical=r'\s*', linefeed=r'[ \t]*(?:\n[ \t]*(?![ \t]*\n))?',
             linestart=r'[ \t]*(?:\n(?![ \t]*\n))?', custom=r'[_]*')


def space(cx, ws, n):
    comment = cx.bool('comment')
    lw = cx.choice('literalws', ['right', 'left', 'both', 'none'])
    opt = cx.choice('opt', ['none', 'all'])
    d = [('whitespace', ws if ws != 'custom' else '/[_]*/'), ('literalws', lw)]
    if comment:
        d.append(('comment', '/#[^\\n]*/'))
    if opt != 'none':
        d.append(('optimizations', opt))
    src = ''.join('@ %s = %s\n' % x for x in d) + 'start = "a" `b` "c"\n'
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    w = ('r', SPACE[ws])
    if comment:
        w = ('seq', w, ('many', ('seq', ('r', '#[^\n]*'), w)))
    left = [w] if lw in ('left', 'both') else []
    right = [w] if lw in ('right', 'both') else []
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    bt = None
    if comment and opt != 'none' and left:
        w = '(?:%s(?:#[^\n]*%s)*)' % (SPACE[ws], SPACE[ws])
        r = w if right else ''
        rx = w + 'a' + r + 'b' + w + 'c' + r

        def bt_ends(s):
            m = re.match(rx, s)
            return [m.end()] if m else [0]
        bt = ('P23-smartre-comment', bt_ends)
    agree(cx, {'start': tuple(['seq'] + left + ['a'] + right + ['b'] + left + ['c'] + right)},
          cls, src, s, (), bt)


FORMS = [('`c`', 'c'), ('[0x63]', 'c'), ('0x63', 'c'), ('/[0x63]/', 'c'), ('( 0x63 | "cc" )', 'c'),
         ('&`c` .', 'c')]


def ignorecase(cx, k, n):
    on = cx.bool('on')
    form, last = FORMS[k]
    opt = cx.choice('opt', ['none', 'all'])
    src = '@ literalws = none\n@ ignorecase = %s\n' % ('True' if on else 'False')
    if opt != 'none':
        src += '@ optimizations = all\n'
    src += 'start = "B" A %s\nA = /d/\n' % form
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    i = (lambda x: ('i', x)) if on else T
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    agree(cx, {'start': ('seq', i('B'), ('sym', 'A'), i(last)), 'A': i('d')}, cls, src, s,
          ('start', 'A') if not on else ())


MACROS = dict(
    two=('start = $two(`x`, /y/)\nHIDE:$two($a, $b) = $a $b $a\n', 'xyx'),
    order=('start = $p(`x`, `y`)\nHIDE:$p($b, $a) = $a `.` $b\n', 'y.x'),
    three=('start = $p(`x`, `y`, `z`)\nHIDE:$p($m, $z, $a) = $a $m $z | $z $m\n',
           ('alt', 'zxy', 'yx')),
    times=('start = $p(`x`, `y`)\nHIDE:$p($b, $a) = 3 * { $b }+ | `!` | 2 * [ $a ]\n',
           ("alt", ("cnt", "x", 3, 99), "!", ("cnt", "y", 0, 2))),
    shadow=('start = $o(`x`, `y`)\nHIDE:$o($a, $b) = $i($b, $a) `!`\nHIDE:$i($a, $b) = $a { $b }\n',
            ('seq', 'y', ('many', 'x'), '!')),
    inner=('start = $o(`x`, `y`)\nHIDE:$o($a, $b) = $i($a, $b) `!`\n'
           'HIDE:$i($y, $x) = $x { $y }\n', ('seq', 'y', ('many', 'x'), '!')),
    list=('start = $list(A, `,`)\nHIDE:$list($item, $sep) = $item { $sep $item }\nA = /[ab]/\n',
          ('seq', ('sym', 'A'), ('many', ('seq', ',', ('sym', 'A'))))),
    twice=('start = $q(`a`) $q(`b`)\nHIDE:$q($x) = $x `>`\n', 'a>b>'),
    option=('start = { $m(`a` | `b`, [`c`]) }\nHIDE:$m($x, $y) = $x $y `;`\n',
            ('many', ('seq', ('alt', 'a', 'b'), ('opt', 'c'), ';'))),
    look=('start = $until(`.`)\nHIDE:$until($stop) = { !$stop /./ } $stop\n',
          ('seq', ('many', ('seq', ('nla', '.'), ('r', '.'))), '.')),
    noargs=('start = $k `b`\nHIDE:$k = `a`\n', 'ab'),
)


def macro(cx, name, n):
    src, term = MACROS[name]
    opt = cx.choice('opt', ['none', 'all'])
    src = '@ literalws = none\n' + ('' if opt == 'none' else '@ optimizations = all\n') + src
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    rules = {'start': norm(term), 'A': ('r', '[ab]')}
    agree(cx, rules, cls, src, s, ('start', 'A'))


# literals, one of them the beginning of others, and expressions that start differently
PREFIXES = ['a', 'ab', 'abc', 'b', ('r', '[xy]'), ('seq', 'z', 'a')]


def reorder(cx, k, n, m):
    items = cx.choice('items', [p for r in range(2, m + 1)
                                for p in itertools.permutations(range(len(PREFIXES)), r)
                                if p[0] == k])
    items = [PREFIXES[k] for k in items]
    opt = cx.choice('opt', ['none', 'rearrange_alternative'])
    rules = {'start': tuple(['alt'] + items)}
    src = text_of(rules, 'plain', opt)
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    # the longest one takes precedence
    items.sort(key=lambda x: -len(x) if isinstance(x, str) else 0)
    agree(cx, {'start': tuple(['alt'] + items)}, cls, src, s, ('start',))


# regular expressions that could get into each other's way, when they are merged
MIXED = dict(
    verbose=('/a b/ ( /c  # comment\n/ | `d e` )', ('seq', 'a b', ('alt', 'c', 'd e'))),
    verbose_alt=('/a b/ | /c\n  d/ | `e f#`', ('alt', 'a b', 'cd', 'e f#')),
    backref=('/(a|b)\\1/ ( `c` | /(.)\\1/ )', ('seq', ('alt', 'aa', 'bb'), ('alt', 'c', ('r', r'(.)\1')))),
    backref_alt=('`c` | /(a|b)\\1/', ('alt', 'c', 'aa', 'bb')),
    groups=('/((a)b)/ /(?:(c)|d)/ | /(e)/', ('alt', ('seq', 'ab', ('alt', 'c', 'd')), 'e')),
    bars=('/a|b/ /c|d/ | /e|f/ `g`', ('alt', ('seq', ('r', 'a|b'), ('r', 'c|d')), ('seq', ('r', 'e|f'), 'g'))),
    bars_la=('!/a|b/ /./ &/c|$/ | &/a|b/ `a`', ('alt', ('seq', ('nla', ('r', 'a|b')), ('r', '.'), ('la', ('r', 'c|$'))),
                                             ('seq', ('la', ('r', 'a|b')), 'a'))),
    braces=('/a{2}/ `{` | /[{}]/ `{{}`', ('alt', 'aa{', ('seq', ('r', '[{}]'), '{{}'))),
    look=('/(?=a)./ !`b` /./', ('seq', ('r', '(?=a).'), ('nla', 'b'), ('r', '.'))),
    behind=('`a` /(?<=a)b/ | /b(?!c)/ .', ('alt', ('seq', 'a', ('r', '(?<=a)b')),
                                         ('seq', ('r', 'b(?!c)'), ('any',)))),
    anchors=('/^a/ /b$/ | `c` /^d/', ('alt', ('seq', ('r', '^a'), ('r', 'b$')), ('seq', 'c', ('r', '^d')))),
    symbols=('( /a/ | A | `c` ) `b`', ('seq', ('alt', 'a', ('sym', 'A'), 'c'), 'b')),
    counted=('( /a/ | `b` ){1,2} /c/ 2 * ( `d` | /e/ )', ('seq', ('cnt', ('alt', 'a', 'b'), 1, 2), 'c',
                                                  ('cnt', ('alt', 'd', 'e'), 2, 2))),
    special=('/\\// `\\\\` | `.` /\\./ | "*" /\\+/', ('alt', '/\\\\', '..', '*+')),
    empty=('/a|/ `b` | /c?/ !/./', ('alt', ('seq', ('r', 'a|'), 'b'), ('seq', ('r', 'c?'), ('nla', ('r', '.'))))),
)


def mixed(cx, name, n):
    src, term = MIXED[name]
    opt = cx.choice('opt', OPTS)
    src = '@ literalws = none\n' + ('' if opt == 'none' else '@ optimizations = %s\n' % opt) \
        + 'start = ' + src + '\nA = `!`\n'
    cls = cx.prepare(compiled, src)[0]
    if isinstance(cls, list):
        cx.fail('the source is accepted', (src, cls))
        return
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    agree(cx, {'start': term, 'A': T('!')}, cls, src, s, ('start', 'A'))
