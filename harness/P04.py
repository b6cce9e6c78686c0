"""P04: parsers recognise exactly what the semantics of PEGs prescribes."""
from hutil import Job, ANY, ASCII
from pegref import no_bom, FAMILY, INNER, OUTER, RULE_A, grammar_class, match, norm, nullable
from DHParser.error import has_errors
from DHParser.parse import Drop, Text, IgnoreCase, RegExp, AnyChar
from DHParser.configuration import set_config_value

ASSUMPTIONS = ['the text does not start with a byte order mark (see P05)',
               'elements of an interleave do not match the empty string (documented restriction)',
               'bounded repetition of an empty match counts as often as needed']


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in FAMILY:
        n = 4 if q else 6
        J.append(Job('fam-' + name, 'family', {'name': name, 'n': n}, weight=20, tags=['match', 'fail']
                     if name != 'many_greedy' else ['fail'],
                     bounds='grammar %s, texts of 0..%d arbitrary characters' % (name, n)))
    for name in FAMILY:
        n = 2 if q else 5
        J.append(Job('drop-' + name, 'dropped', {'name': name, 'n': n}, weight=10,
                     bounds='grammar %s with the content of all leaf parsers dropped, texts of 0..%d '
                            'arbitrary characters' % (name, n)))
    for o in OUTER:
        for part in range(4):
            n = 3 if q else 4
            J.append(Job('prog-%s-%d' % (o, part), 'program', {'o': o, 'part': part, 'n': n},
                         weight=100, max_paths=300000,
                         bounds='two operands out of %d, texts of 0..%d ASCII characters'
                                % (len(INNER), n)))
    return J


def compare(cx, rules, s, trailing=False):
    no_bom(cx, s)
    # every named symbol of the grammar serves as start symbol
    cls = grammar_class(rules)
    gr = cls(static_analysis=False)
    names = sorted(rules)
    start = cx.choice('symbol', names) if len(names) > 1 else names[0]
    expected = match(rules, ('sym', start), s, 0)
    tree = gr(s, start, complete_match=False)
    if expected is None:
        cx.tag('fail')
        cx.check(tree.content == '' , 'nothing is matched', lambda: (s, tree.content))
        if len(s) == 0:
            cx.check(has_errors(tree.errors), 'failure on the empty text is reported', lambda: s)
    else:
        cx.tag('match')
        cx.check(tree.content == s[:expected], 'the matched prefix',
                 lambda: (rules, s, start, tree.content, expected))
        cx.check(not has_errors(tree.errors), 'no error', lambda: (s, tree.errors))
    # the same with the complete text as the goal: full match or not
    tree2 = cls(static_analysis=False)(s, start, complete_match=True)
    cx.check(has_errors(tree2.errors) == (expected is None or expected < len(s)),
             'error if and only if the complete text does not match',
             lambda: (rules, s, start, [str(e) for e in tree2.errors], expected))
    if trailing:
        # by default, whitespace may be left over
        tree3 = cls(static_analysis=False)(s, start)
        cx.check(has_errors(tree3.errors) == (expected is None or not blank(s[expected:])),
                 'error if and only if the text up to trailing whitespace does not match',
                 lambda: (rules, s, start, [str(e) for e in tree3.errors], expected))
    cx.observe(tree.content, start, len(tree2.errors))


def blank(s):
    for c in s:
        if not c.isspace():
            return False
    return True


def family(cx, name, n):
    compare(cx, FAMILY[name], cx.str('t', n, ANY), trailing=True)


def drop_leaves(t, tr):
    if t[0] in ('t', 'i', 'r', 'any'):
        return Drop({'t': Text, 'i': IgnoreCase, 'r': RegExp, 'any': AnyChar}[t[0]](*t[1:]))
    return None


def dropped(cx, name, n):
    set_config_value('infinite_loop_warning', False)
    # (parsers with names of their own cannot be dropped individually)
    rules = {k: ('seq', norm(t), ('always',)) if norm(t)[0] in ('t', 'i', 'r', 'any') else t
             for k, t in FAMILY[name].items()}
    s = cx.str('t', n, ANY)
    no_bom(cx, s)
    expected = match(rules, ('sym', 'start'), s, 0)
    gr = grammar_class(rules, mk=drop_leaves)(static_analysis=False)
    tree = gr(s, 'start')
    cx.check(has_errors(tree.errors) == (expected is None or not blank(s[expected:])),
             'error if and only if the text up to trailing whitespace does not match',
             lambda: (rules, s, [str(e) for e in tree.errors], expected))
    cx.observe(len(tree.errors))


def program(cx, o, part, n):
    set_config_value('infinite_loop_warning', False)
    k = len(INNER) // 4
    x = cx.choice('x', INNER[part * k:(part + 1) * k])
    y = cx.choice('y', INNER)
    rules = {'A': RULE_A, 'start': OUTER[o](x, y)}
    if o == 'il':
        cx.assume(not nullable(x, rules) and not nullable(y, rules))
    s = cx.str('t', n, ASCII)
    if not any(t == ('sym', 'A') or ('sym', 'A') in t for t in (x, y)):
        del rules['A']
    compare(cx, rules, s)
