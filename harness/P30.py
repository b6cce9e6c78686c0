"""P30: grammar unit tests pass exactly if grammar and transformation do what the test demands."""
import copy
import re
from hutil import Job, ANY
from pegref import FAMILY, grammar_class, match, no_bom
from treeutil import tree, build, same, shapes_upto, unbuild
from DHParser.nodetree import Node, parse_sxpr
from DHParser.configuration import set_config_value
from DHParser.error import ErrorCode
from DHParser.testing import (grammar_unit, reset_unit, unit_from_config, unit_to_config,
                              merge_test_units, get_report)

import DHParser.log as log_module
import DHParser.trace as trace_module

# only used for excerpts in log entries and notices
log_module.escape_ctrl_chars = lambda s: '...'
trace_module.repr = lambda s: '...'

ASSUMPTIONS = ['the documents do not start with a byte order mark',
               'no test reports are written, logging is off',
               'texts of test cases in configuration-files do not contain tabs (which are replaced '
               'by blanks) and are not both multi-line and contain both triple quotation marks']

FAM = ['text', 'regex_empty', 'choice_back', 'option', 'many_back', 'cnt', 'il_rep', 'rec', 'ws',
       'synonym', 'list', 'lb_text']
AHEAD = ['la', 'nla', 'la_end', 'memo_la', 'anbncn', 'nla_nla']
QUOTED = "ab\"'\n #\\:="


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in FAM:
        n, m = (2 if name in ('lb_text', 'regex_empty') else 3, 2) if q else (4, 3)
        J.append(Job('outcome-' + name, 'outcome', dict(name=name, n=n, m=m), weight=20, tags=['passed', 'failed'],
                     bounds='grammar %s, a match- and a fail-test with texts of up to %d and %d characters'
                            % (name, n, m)))
    for name in AHEAD:
        n = 3 if q else 5
        J.append(Job('ahead-' + name, 'ahead', dict(name=name, n=n), weight=20, tags=['passed', 'failed'],
                     bounds='grammar %s with lookaheads, texts of up to %d characters' % (name, n)))
    n = 2 if q else 3
    J.append(Job('several', 'several', dict(n=n), weight=30, tags=['passed', 'failed'],
                 bounds='two symbols, two match-tests and two fail-tests, any two of them with texts of up to %d '
                        'characters, any order of the symbols; run twice' % n))
    for stage in ('AST', 'CST'):
        J.append(Job('tree-' + stage, 'trees', dict(stage=stage, n=3 if q else 4), weight=20, tags=['passed', 'failed'],
                     bounds='%s-tests: all trees with up to %d nodes, names out of 3, leaves with up to 1 character, '
                            'against the trees of three texts' % (stage, 3 if q else 4)))
        J.append(Job('flat-' + stage, 'flat', dict(stage=stage, n=3 if q else 4), weight=20,
                     bounds='%s-tests given as content of up to %d characters' % (stage, 3 if q else 4)))
    for k, symbols in enumerate((1, 2)):
        n = (4, 2)[k] if q else (5, 3)[k]
        J.append(Job('config-%d' % symbols, 'config', dict(k=symbols, n=n), weight=20, tags=['one line', 'lines'],
                     bounds='%d test(s) with up to %d characters from %r, written and read again' % (symbols, n, QUOTED)))
    J.append(Job('errors', 'errors', {}, weight=5, tags=['passed', 'failed'],
                 bounds='transformation and two further stages that add an error with 12 codes from 1 to 10001'))
    n = 4 if q else 6
    J.append(Job('mandatory', 'mandatory', dict(n=n), weight=20, tags=['passed', 'failed'],
                 bounds='match- and fail-tests of a grammar with mandatory items, mandatory lookahead and a resume '
                        'rule, texts of up to %d characters' % n))
    J.append(Job('combined', 'combined', {}, weight=20, tags=['passed', 'failed'],
                 bounds='any combination of right, wrong and missing CST-, AST- and stage-tests of two match-tests'))
    J.append(Job('stage', 'stages', dict(n=2 if q else 3), weight=5, tags=['passed', 'failed'],
                 bounds='tests of a stage that yields a string or a tree, expectation of up to %d characters'
                        % (2 if q else 3)))
    J.append(Job('unknown', 'unknown', {}, weight=5, bounds='tests of a symbol that does not exist before or behind '
                 'other tests'))
    J.append(Job('read', 'reading', dict(n=3 if q else 4), weight=20,
                 bounds='case texts of up to %d characters in all kinds of quotation marks, indented, or none; comments'
                        % (3 if q else 4)))
    J.append(Job('merge', 'merging', dict(n=2 if q else 3), weight=20,
                 bounds='%d units with different match- and fail-tests with equal or different names, AST-tests for '
                        'any match-test' % (2 if q else 3)))
    return J


def run(unit, cls, symbols=()):
    gr = cls(static_analysis=False)
    return grammar_unit(unit, lambda: gr, lambda: lambda tree: None, '')


def blank(s):
    return s.strip() == ''


def is_match(rules, sym, s):
    e = match(rules, ('sym', sym), s, 0)
    return e is not None and blank(s[e:])


def is_fail(rules, sym, s):
    e = match(rules, ('sym', sym), s, 0)
    return e is None or e != len(s)


def starts(errata, what):
    return sum(1 for e in errata if e.startswith(what))


def outcome(cx, name, n, m):
    rules = FAMILY[name]
    s, t = cx.str('s', n, ANY), cx.str('t', m, ANY)
    no_bom(cx, s)
    no_bom(cx, t)
    unit = {'start': {'match': {'M1': s}, 'fail': {'F1': t}}}
    cls = grammar_class(rules)
    errata = run(unit, cls)
    a, b = is_match(rules, 'start', s), is_fail(rules, 'start', t)
    cx.tag('passed' if a and b else 'failed')
    cx.check(starts(errata, 'Match test "M1" for parser "start" failed') == (0 if a else 1), 'match-test',
             lambda: (s, a, errata))
    cx.check(starts(errata, 'Fail test "F1" for parser "start" yields match') == (0 if b else 1), 'fail-test',
             lambda: (t, b, errata))
    cx.check(len(errata) == (0 if a else 1) + (0 if b else 1), 'one error for each failed test', lambda: errata)
    cx.check(list(unit['start'].get('__err__', {})) == [k for k, x in (('M1', a), ('F1', b)) if not x],
             'errors belong to tests', lambda: unit)
    cst = unit['start']['__CST__']['M1']
    ref = cls(static_analysis=False)(s, 'start')
    cx.check(cst.equals(ref) and [(e.code, e.pos) for e in cst.errors] == [(e.code, e.pos) for e in ref.errors],
             'tree of the match-test', lambda: (cst.as_sxpr(), ref.as_sxpr()))
    cx.observe(len(errata), [k for k in unit['start']])


def ahead(cx, name, n):
    """a text that matches passes a match-test, a text that does not match a prefix, either, fails"""
    rules = FAMILY[name]
    s = cx.str('s', n, 'abcx')
    cls = grammar_class(rules)
    kind = cx.choice('kind', ['match', 'fail'])
    strict = cx.bool('strict')
    set_config_value('test_suppress_lookahead_failures', not strict)
    unit = {'start': {kind: {'X': s}}}
    errata = run(unit, cls)
    again = {'start': {kind: {'X': s}}}
    gr = cls(static_analysis=False)
    two = grammar_unit(again, lambda: gr, lambda: lambda tree: None, '')
    set_config_value('test_suppress_lookahead_failures', True)
    good = is_match(rules, 'start', s) if kind == 'match' else is_fail(rules, 'start', s)
    cx.tag('failed' if errata else 'passed')
    if strict:
        cx.check(bool(errata) == (not good), 'without suppression, tests fail exactly if they should',
                 lambda: (s, kind, errata))
    elif kind == 'match':
        cx.check(not (good and errata), 'a matching text passes', lambda: (s, errata))
        if not good and not errata:
            # passed because of a lookahead: the text is what comes before the lookahead
            more = [s + x for x in ('b', 'bc', 'bbc', 'bcc')] + [s + s]
            e = match(relaxed(rules), ('sym', 'start'), s, 0)
            cx.check(e is not None, 'without lookaheads, (part of) the text would have matched', lambda: s)
    else:
        cx.check(not (not good and not errata), 'a matching text does not pass a fail-test', lambda: (s, errata))
    cx.check(len(errata) == len(two), 'the same again')
    cx.observe(len(errata))


def relaxed(rules):
    def tr(t):
        if isinstance(t, tuple):
            if t[0] in ('la', 'nla'):
                return ('always',)
            return tuple(tr(x) for x in t)
        return t
    return {k: tr(v) for k, v in rules.items()}


def several(cx, n):
    rules = {'A': ('many1', 'a'), 'start': ('seq', ('sym', 'A'), 'b')}
    which = cx.choice('which', [('M1', 'F1'), ('M1', 'M2'), ('F1', 'F2'), ('M2', 'F2')])
    symbolic = {w: cx.str(w, n, 'abx') for w in which}
    first, second = cx.choice('order', [('start', 'A'), ('A', 'start')])
    good, bad = {'start': 'ab', 'A': 'a'}, 'b'
    unit = {first: {'match': {'M1': symbolic.get('M1', good[first]), 'M3': good[first]},
                    'fail': {'F1': symbolic.get('F1', bad)}},
            second: {'fail': {'F2': symbolic.get('F2', bad), 'F1': bad},
                     'match': {'M2': symbolic.get('M2', good[second])}}}
    expected = []
    for sym in (first, second):
        for kind in ('match', 'fail'):
            for k in unit[sym].get(kind, {}):
                s = unit[sym][kind][k]
                if kind == 'match' and not is_match(rules, sym, s):
                    expected.append('Match test "%s" for parser "%s" failed:' % (k, sym))
                if kind == 'fail' and not is_fail(rules, sym, s):
                    expected.append('Fail test "%s" for parser "%s" yields match' % (k, sym))
    cls = grammar_class(rules)
    gr = cls(static_analysis=False)
    errata = grammar_unit(unit, lambda: gr, lambda: lambda tree: None, '')
    cx.tag('failed' if expected else 'passed')
    cx.check(len(errata) == len(expected) and all(a.startswith(b) for a, b in zip(errata, expected)),
             'exactly the failing tests are reported, in order', lambda: (unit, errata, expected))
    report = get_report(unit)
    cx.check(all(report.find(e) >= 0 for e in errata), 'all errors are in the report', lambda: (errata, report))
    cx.check(all(report.find('"%s"' % k) >= 0 for k in ('M1', 'M2', 'M3', 'F1', 'F2')), 'all tests are in the report')
    reset_unit(unit)
    cx.check(all(set(tests) <= {'match', 'fail'} for tests in unit.values()), 'reset', lambda: unit)
    twice = grammar_unit(unit, lambda: gr, lambda: lambda tree: None, '')
    cx.check(twice == errata, 'the same when run again', lambda: (errata, twice))
    cx.observe(errata)


TREE_RULES = {'a': 'x', 'b': ('r', '[xy]'), 's': ('alt', ('seq', ('sym', 'a'), ('sym', 'b')), ('sym', 'b'))}


def trees(cx, stage, n):
    s = cx.choice('text', ['x', 'y', 'xx', 'xy'])
    T = tree(cx, 't', cx.choice('shape', shapes_upto(n)), names='abs', maxlen=1, alphabet='xy')
    cls = grammar_class(TREE_RULES, 's')
    actual = cls(static_analysis=False)(s, 's')
    unit = {'s': {'match': {'M': s}, stage: {'M': build(T)}}}
    errata = run(unit, cls)
    eq = build(T).equals(actual)
    cx.tag('passed' if eq else 'failed')
    cx.check(same(T, unbuild(actual)) == eq, 'equal trees')
    cx.check(len(errata) == (0 if eq else 1), 'test passes exactly if the trees are equal',
             lambda: (T, actual.as_sxpr(), errata))
    cx.check(all(e.lower().find(' syntax tree test "M" for parser "s" failed'.lower()) > 0 for e in errata),
             'says so', lambda: errata)
    cx.check(bool(unit['s'].get('__err__', {}).get('M', '')) == (not eq), 'recorded')
    cx.observe(len(errata))


def flat(cx, stage, n):
    s = cx.choice('text', ['x', 'y', 'xx', 'xy'])
    c = cx.str('c', n, 'xya', minlen=1)
    cls = grammar_class(TREE_RULES, 's')
    unit = {'s': {'match': {'M': s}, stage: {'M': c}}}
    errata = run(unit, cls)
    cx.check((len(errata) == 0) == (c == s), 'test passes exactly if the content is equal', lambda: (c, s, errata))
    cx.observe(len(errata))


def errors(cx):
    code = cx.choice('code', [1, 99, 100, 101, 680, 999, 1000, 1001, 1710, 9999, 10000, 10001])
    where = cx.choice('where', ['AST', 'one', 'two'])
    sym = cx.choice('order', [('a', 's'), ('s', 'a')])

    def stage(name):
        def process(tree):
            tree.stage = name
            if where == name and tree.content == 'x':
                tree.new_error(tree, 'wrong', ErrorCode(code))
            return tree
        return process
    unit = {sym[0]: {'match': {'M1': 'x'}, 'AST': {}}, sym[1]: {'match': {'M1': 'x' if sym[1] == 'a' else 'xx'}}}
    gr = grammar_class(TREE_RULES, 's')(static_analysis=False)
    errata = grammar_unit(unit, lambda: gr, lambda: stage('AST'), '', show={'two'},
                          junctions={('AST', lambda: stage('one'), 'one'), ('one', lambda: stage('two'), 'two')})
    n = 1 if sym[1] == 's' else 2
    cx.tag('failed' if errata else 'passed')
    cx.check(len(errata) == (n if code >= 1000 else 0), 'errors of the stages make the test fail',
             lambda: (code, where, errata))
    if errata:
        cx.check(all(bool(unit[s].get('__err__', {})) == (unit[s]['match']['M1'] == 'x') for s in sym), 'recorded', lambda: unit)
    cx.observe(len(errata))


def stages(cx, n):
    y = cx.str('y', n, 'xy\n')
    s = cx.choice('text', ['x', 'y', 'xy'])
    kind = cx.choice('kind', ['string', 'tree'])
    unit = {'s': {'match': {'M1*': 'x', 'M2': s}, 'out': {'M2': y}}}
    def leave(tree):
        tree.stage = 'out'
        return tree.content + '\n' if kind == 'string' else tree

    def transform(tree):
        tree.stage = 'AST'
    junctions = {('AST', lambda: leave, 'out')}
    gr = grammar_class(TREE_RULES, 's')(static_analysis=False)
    if kind == 'tree':
        unit['s']['out']['M2'] = Node('s', ((Node('b', y),)))
    errata = grammar_unit(unit, lambda: gr, lambda: transform, '', junctions=junctions)
    good = y.strip('\n') in ('', s) if kind == 'string' else y == s and s != 'xy'
    cx.tag('passed' if good else 'failed')
    cx.check((len(errata) == 0) == good, 'stage-test', lambda: (y, s, errata))
    cx.check(list(unit['s'].get('__err__', {})) == ([] if good else ['M2']), 'recorded', lambda: (y, s, errata))
    cx.observe(len(errata))


MANDATORY_RULES = {'a': ('mseq', 1, 'x', 'y'), 'b': ('mseq', 1, 'z', ('la', '.')),
                   'start': ('seq', ('sym', 'a'), ('opt', ('sym', 'b')))}


def mandatory(cx, n):
    """an error before the end of the text is never taken for an artifact of a lookahead"""
    s = cx.str('s', n, 'xyz.')
    kind = cx.choice('kind', ['match', 'fail'])
    cls = grammar_class(MANDATORY_RULES, attrs={'resume_rules__': {'a': [re.compile('(?=z)')]}})
    unit = {'start': {kind: {'X': s}}}
    errata = run(unit, cls)
    errors = cls(static_analysis=False)(s, 'start').errors
    failed = bool(errata) == (kind == 'match')
    cx.tag('failed' if errata else 'passed')
    if not errors:
        cx.check(not failed, 'a text without errors passes', lambda: (s, kind, errata))
    if [e for e in errors if e.pos < len(s) and 1000 <= e.code < 1040]:
        cx.check(failed, 'an error inside of the text fails', lambda: (s, kind, [(e.code, e.pos) for e in errors]))
    cx.observe(len(errata))


def combined(cx):
    """the tests of all stages see the result of their own stage"""
    def transform(tree):
        for nd in tree.select_if(lambda nd: True, include_root=True):
            nd.name = nd.name.upper()
        tree.stage = 'AST'

    def leave(tree):
        for nd in tree.select_if(lambda nd: not nd._children, include_root=True):
            nd.result = nd.content + '.'
        tree.stage = 'out'
        return tree

    gr = grammar_class(TREE_RULES, 's')(static_analysis=False)
    right = {'CST': ('(s (a "x") (b "x"))', '(s (b "y"))'), 'AST': ('(S (A "x") (B "x"))', '(S (B "y"))'),
             'out': ('(S (A "x.") (B "x."))', '(S (B "y."))')}
    right = {k: tuple(parse_sxpr(x) for x in v) for k, v in right.items()}
    unit = {'s': {'match': {'M1': 'xx', 'M2': 'y'}}}
    which = cx.choice('which', ['M1', 'M2'])
    bad = False
    for stage in right:
        kind = cx.choice(stage, ['none', 'right', 'of AST', 'of CST', 'of out'])
        if kind != 'none':
            of = stage if kind == 'right' else kind[3:]
            if kind != 'right':
                cx.assume(of != stage)
            bad = bad or of != stage
            unit['s'][stage] = {which: copy.deepcopy(right[of][0 if which == 'M1' else 1])}
    errata = grammar_unit(unit, lambda: gr, lambda: transform, '', junctions={('AST', lambda: leave, 'out')})
    cx.tag('failed' if errata else 'passed')
    cx.check(bool(errata) == bad, 'fails exactly if one of the tests fails', lambda: (unit, errata))
    cx.check(list(unit['s'].get('__err__', {})) == ([which] if bad else []), 'recorded', lambda: (unit, errata))
    cx.observe(len(errata))


def unknown(cx):
    kind = cx.choice('kind', ['match', 'fail'])
    other = cx.choice('other', ['match', 'fail'])
    text = cx.choice('text', ['x', '', 'zz'])
    units = [('nope', {kind: {'N': 'x'}}), ('s', {other: {'M': text}})]
    if cx.bool('last'):
        units.reverse()
    unit = dict(units)
    errata = run(unit, grammar_class(TREE_RULES, 's'))
    wrong = [e for e in errata if '"nope"' in e]
    rest = [e for e in errata if '"nope"' not in e]
    cx.check(len(wrong) >= 1, 'tests of unknown symbols fail', lambda: (kind, errata))
    good = is_match(TREE_RULES, 's', text) if other == 'match' else is_fail(TREE_RULES, 's', text)
    cx.check(len(rest) == (0 if good else 1), 'other tests are not affected', lambda: (kind, errata))
    cx.observe(len(errata))


def config(cx, k, n):
    names = ['M1', 'x.y', 'Zahl_2']
    if k == 1:
        t = cx.str('t', n, QUOTED)
        unit = {'start': {'match': {cx.choice('name', names): t}}}
        texts = [t]
    else:
        t, u = cx.str('t', n, QUOTED), cx.str('u', n, QUOTED)
        texts = [t, u]
        unit = cx.choice('unit', [{'start': {'match': {'M1': t, 'M2': u}}},
                                  {'start': {'match': {'1': t}, 'fail': {'2*': u}}},
                                  {'start': {'match': {'M1': t}, 'AST': {'M1': u}}},
                                  {'a': {'match': {'M1': t}}, 'b': {'fail': {'M1': u}}}])
    try:
        cfg = unit_to_config(unit)
    except ValueError:
        cx.check(any('"' in t and "'" in t for t in texts), 'cases with only one kind of quotation mark are written')
        return
    try:
        back = unit_from_config(cfg, 'test.ini')
    except (SyntaxError, KeyError) as e:
        cx.fail('what was written can be read', lambda: (cfg, str(e)))
        return
    cx.tag('lines' if any('\n' in t for t in texts) else 'one line')
    cx.check([(a, [(b, list(d.items())) for b, d in c.items()]) for a, c in back.items()]
             == [(a, [(b, list(d.items())) for b, d in c.items()]) for a, c in unit.items()],
             'the same unit is read', lambda: (unit, cfg, back))
    cx.observe(cfg)


def reading(cx, n):
    t = cx.str('t', n, 'ab \n"\'')
    q = cx.choice('quote', ['"', "'", '"""', "'''", ''])
    comment = cx.choice('comment', ['', '# M2: x\n', '; "\n\n', '\n   # c\n'])
    sep = cx.choice('sep', [': ', ':', ' = ', '='])
    if q:
        cx.assume(q not in t and not t.endswith(q[0]) and not t.startswith(q[0]))
        if len(q) == 1:
            cx.assume('\n' not in t)
    else:
        cx.assume(t != '' and t == t.strip() and not t.startswith('"') and not t.startswith("'")
                  and '\n\n' not in t and '\n \n' not in t)
    body = q + t.replace('\n', '\n    ') + q
    cfg = comment + '[match:start]\n' + comment + 'M1' + sep + body + '\n' + comment + 'M3: "c"\n' + comment \
        + '\n[fail:start]\nF1: "d"\n'
    unit = unit_from_config(cfg, 'test.ini')
    got = [(a, [(b, list(d.items())) for b, d in c.items()]) for a, c in unit.items()]
    cx.check(got == [('start', [('match', [('M1', t), ('M3', 'c')]), ('fail', [('F1', 'd')])])], 'read as written',
             lambda: (cfg, got))
    cx.observe(got)


def merging(cx, n):
    """units without equal test cases"""
    units, wants = [], []
    for k in range(1, n + 1):
        names = cx.choice('names%d' % k, [['M1'], ['M1', 'M2'], ['M2', 'x'], ['M9', 'M1'], ['x', 'x1']])
        cases, asts, fails = {}, {}, {}
        for i, m in enumerate(names):
            cases[m] = '%s%d%d' % (k, i, k)
            if cx.bool('ast%d%d' % (k, i)):
                asts[m] = '(a "%d %d")' % (k, i)
        unit = {'start': {'match': cases}}
        if cx.bool('fail%d' % k):
            unit['start']['fail'] = {'M1': 'fail%d' % k, 'F1': 'not%d' % k}
        if asts:
            unit['start']['AST'] = asts
        units.append(unit)
        wants += [(cases[m], asts.get(m, '')) for m in names]
    merged = merge_test_units(*copy.deepcopy(units))
    got = merged['start']
    cx.check(set(got.get('AST', {})) <= set(got['match']), 'every AST-test has a match-test', lambda: (units, merged))
    pairs = [(t, got.get('AST', {}).get(m, '')) for m, t in got['match'].items()]
    cx.check(pairs == wants, 'no test is lost, each result belongs to its match-test', lambda: (units, merged))
    cx.check([t for t in got.get('fail', {}).values()]
             == [t for u in units for t in u['start'].get('fail', {}).values()], 'fail-tests', lambda: (units, merged))
    cx.observe(pairs)
