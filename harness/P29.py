"""P29: copies of grammars and trees are equal to and independent of the original."""
import copy
from hutil import Job, ANY
from histfam import GRAMS, make, snap
from pegref import no_bom, FAMILY, grammar_class, g
from treeutil import shapes, shapes_upto, tree, build, unbuild
from DHParser.parse import (Grammar, Parser, Series, Text, RegExp, ZeroOrMore, OneOrMore, Alternative, Option,
                            Forward, Synonym, Drop, DropFrom, TreeReduction, CombinedParser, Capture, Retrieve, Pop,
                            Whitespace, IgnoreCase, Counted, Interleave, Lookahead, NegativeLookahead,
                            Lookbehind, NegativeLookbehind, SmartRE, Always, Never, AnyChar, ERR, Custom,
                            matching_bracket, UnaryParser, NaryParser, CombinedParser as CP, mixin_comment)
from DHParser.nodetree import Node, RootNode
from DHParser.error import Error, ErrorCode, ERROR, WARNING
from DHParser.toolkit import re

ASSUMPTIONS = ['the documents do not start with a byte order mark',
               'attribute values and data attached by the user are immutable',
               'original and copy are not used at the same time by different threads']

FAM = ['icase', 'many_back', 'cnt_alt', 'il_rep', 'lb', 'memo_la', 'rec_mut', 'anbncn', 'ws', 'synonym', 'dangling',
       'nla', 'alwaysnever', 'choice_back']


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = 2 if q else 3
    for name in GRAMS:
        J.append(Job('gram-' + name, 'gram', dict(name=name, n=n), weight=30, max_paths=200000,
                     bounds='grammar %s, texts of up to %d and %d characters, any start symbol; copied before or '
                            'after parsing, copy of a copy; both used in turn' % (name, n, n - 1)))
    for name in FAM:
        J.append(Job('fam-' + name, 'gram', dict(name=name, n=n, fam=True), weight=20, max_paths=200000,
                     bounds='grammar %s, texts of up to %d and %d characters; copied before or after '
                            'parsing, copy of a copy; both used in turn' % (name, n, n - 1)))
    J.append(Job('config', 'config', dict(n=2 if q else 3), weight=30, max_paths=200000,
                 bounds='all settings of tree reduction, disposable root, disposable symbols, dropped tokens, '
                        'given root parser; texts of up to %d characters' % (2 if q else 3)))
    J.append(Job('parts', 'parts', dict(n=2 if q else 3), weight=30, max_paths=200000,
                 bounds='copies of single parsers of every class; texts of up to %d characters' % (2 if q else 3)))
    J.append(Job('rtree', 'rtree', dict(n=3), weight=60, max_paths=400000,
                 bounds='all trees of up to 3 nodes with attributes, positions, errors; any of %d kinds '
                        'of changes of any node of the copy or of the original' % len(CHANGES)))
    if not q:
        J.append(Job('rtree4', 'rtree', dict(n=4), weight=60, max_paths=400000,
                     bounds='all trees of up to 4 nodes with attributes, positions, errors; any of %d kinds '
                            'of changes of any node of the copy or of the original' % len(CHANGES)))
    J.append(Job('parsed', 'parsed', dict(n=2 if q else 3), weight=20,
                 bounds='trees and errors from parsing texts of up to %d characters with three grammars' %
                        (2 if q else 3)))
    return J


def parser_attrs(p):
    r = [p.__class__.__name__, p.pname, p.ptype, p.node_name, p.disposable, p.drop_content]
    for a in ('text', 'repetitions', 'mandatory', 'min', 'err_msg', 'len', 'keep_comments', 'zero_length_warning',
              'groups', 'repr_str', 'is_lookahead_', 'parser_name', 'match'):
        if hasattr(p, a) and not isinstance(getattr(p, a), Parser):
            v = getattr(p, a)
            r.append((a, v.__name__ if callable(v) else repr(v)))
    if isinstance(p, CombinedParser):
        r += [p._return_value.__name__, p._return_values.__name__]
    return r


def sub(p):
    """the parts of a parser in order"""
    if hasattr(p, 'parsers'):
        return list(p.parsers)
    if hasattr(p, 'parser') and isinstance(p.parser, Parser):
        return [p.parser]
    return []


def compare(cx, p, q, label, seen):
    """same structure, no common objects"""
    if id(p) in seen:
        cx.check(seen[id(p)] is q, label + ': same sharing', lambda: (repr(p), repr(q)))
        return
    seen[id(p)] = q
    cx.check(p is not q, label + ': not the same object', lambda: repr(p))
    a, b = parser_attrs(p), parser_attrs(q)
    cx.check(a == b, label + ': same attributes', lambda: (a, b))
    s, t = sub(p), sub(q)
    cx.check(len(s) == len(t), label + ': same parts', lambda: (repr(p), repr(q)))
    for x, y in zip(s, t):
        compare(cx, x, y, label, seen)


def compare_grammars(cx, gr, c, label):
    cx.check(type(gr) is type(c), label + ': class')
    seen = {}
    compare(cx, gr.root_parser__, c.root_parser__, label, seen)
    for name in gr.parser_names__:
        compare(cx, gr[name], c[name], label, seen)
    ids = {id(p) for p in gr.all_parsers__}
    cx.check(not any([id(p) in ids for p in c.all_parsers__]), label + ': no common parsers')
    cx.check(len(gr.all_parsers__) == len(c.all_parsers__), label + ': same number of parsers',
             lambda: (len(gr.all_parsers__), len(c.all_parsers__)))
    for p in gr.all_parsers__:
        cx.check(p.grammar is gr, label + ': grammar of the parsers')
    for p in c.all_parsers__:
        cx.check(p.grammar is c, label + ': grammar of the parsers')
    for a in ('left_recursion__', 'history_tracking__', 'resume_notices__', 'max_parser_dropouts__',
              'reentry_search_window__', 'cancel_query__'):
        cx.check(getattr(gr, a) == getattr(c, a), label + ': ' + a, lambda: (a, getattr(gr, a), getattr(c, a)))
    cx.check(len(gr.unconnected_parsers__) == len(c.unconnected_parsers__), label + ': unconnected parsers')
    cx.check(len(gr.resume_parsers__) == len(c.resume_parsers__), label + ': resume parsers')
    for a in ('resume_rules__', 'skip_rules__'):
        cx.check(sorted(getattr(gr, a)) == sorted(getattr(c, a)), label + ': ' + a)


def gram(cx, name, n, fam=False):
    t = cx.str('t', n, ANY)
    u = cx.str('u', n - 1, ANY)
    no_bom(cx, t)
    no_bom(cx, u)
    if fam:
        rules, starts = FAMILY[name], ['start']
        cls = grammar_class(rules)
    else:
        starts = GRAMS[name][1]
        cls = make(name)
    start = cx.choice('start', starts)
    used = cx.bool('used')
    gr = cls(static_analysis=False)
    fresh = cls(static_analysis=False)
    want_t = snap(fresh, fresh(t, start))
    want_u = snap(fresh, fresh(u, start))
    if used:
        gr(u, start)
    c = copy.deepcopy(gr)
    if cx.bool('twice'):
        c = copy.deepcopy(c)
    compare_grammars(cx, gr, c, 'copy')
    x = c(t, start)
    got = snap(c, x)
    cx.check(got == want_t, 'copy gives the same result', lambda: (name, t, u, got, want_t))
    keep = unbuild(x)
    y = gr(u, start)
    cx.check(snap(gr, y) == want_u, 'original gives the same result as before', lambda: (name, t, u))
    cx.check(unbuild(x) == keep and snap(c, x) == want_t, 'use of the original does not change results of the copy',
             lambda: (name, t, u))
    cx.check(snap(c, c(u, start)) == want_u, 'copy after use of the original', lambda: (name, t, u))
    cx.check(unbuild(y) == want_u[0] or snap(gr, y) == want_u, 'use of the copy does not change results of the original',
             lambda: (name, t, u))
    cx.check(snap(gr, gr(t, start)) == want_t, 'original after use of the copy', lambda: (name, t, u))
    cx.observe(want_t[1])


def config(cx, n):
    t = cx.str('t', n, [(97, 99), (32, 32)])
    level = cx.choice('level', [0, 1, 2, 3])
    disp = cx.choice('disp', [(), ('start',), ('B', 'start'), ('B',)])
    given = cx.choice('given', ['class', 'root', 'reduced', 'forward'])

    class G(Grammar):
        disposable__ = re.compile('|'.join(disp) + '$') if disp else frozenset()
        early_tree_reduction__ = level
        static_analysis_pending__ = []
        B = Series(Text('b'), Option(Drop(Whitespace(' *'))))
        C = Series(Text('c'), DropFrom(Option(B)))
        lone = Series(Text('a'), Series(Text('b'), Text('c')))
        start = ZeroOrMore(Alternative(Text('a'), B, Series(Text('b'), Text('a')), C))
        root__ = start
    if given == 'class':
        gr = G(static_analysis=False)
    else:
        r = ZeroOrMore(Alternative(Text('a'), Series(Text('b'), Drop(Text(' '))), Series(Text('b'), Text('c'))))
        if given == 'forward':
            f = Forward()
            f.set(Series(r, Option(Series(Text('c'), f))))
            r = f
        elif given == 'reduced':
            r = TreeReduction(r, level)
        gr = Grammar(r, static_analysis=False)
    if cx.bool('cancel'):
        gr.cancel_query__ = lambda: False
    gr.left_recursion__ = cx.bool('lr')
    c = copy.deepcopy(gr)
    compare_grammars(cx, gr, c, 'copy')
    a, b = snap(gr, gr(t)), snap(c, c(t))
    cx.check(a == b, 'same result', lambda: (t, level, disp, given, a, b))
    if given == 'class':
        a, b = snap(gr, gr(t, 'lone')), snap(c, c(t, 'lone'))
        cx.check(a == b, 'same result', lambda: (t, level, disp, given, a, b))
    cx.observe(a)


def custom(text):
    return Node('x', 'a') if text[0:1] == 'a' else None


def parser_of(k):
    a, b = Text('a'), RegExp('b+')
    P = dict(
        rei=lambda: Series(RegExp(re.compile('a', re.I)), Whitespace(re.compile('.', re.S))),
        text=lambda: a, icase=lambda: IgnoreCase('aB'), icasei=lambda: IgnoreCase('İ'), regexp=lambda: b,
        ws=lambda: Whitespace(mixin_comment('[ ]*', 'c')), wsk=lambda: Whitespace('[ ]*', keep_comments=True),
        any=lambda: AnyChar(), always=lambda: Always(), never=lambda: Never(),
        series=lambda: Series(a, b, a, mandatory=1), alt=lambda: Alternative(a, b),
        option=lambda: Option(a), many=lambda: ZeroOrMore(a), many1=lambda: OneOrMore(b),
        counted=lambda: Counted(a, (1, 2)), il=lambda: Interleave(a, b, repetitions=[(1, 1), (0, 1)]),
        ilm=lambda: Interleave(a, b, mandatory=1), la=lambda: Series(Lookahead(b), AnyChar()),
        nla=lambda: Series(NegativeLookahead(a), AnyChar()), lb=lambda: Series(b, Lookbehind(RegExp('bb')), a),
        nlb=lambda: Series(b, NegativeLookbehind(RegExp('bb')), a), syn=lambda: Synonym(Series(a, b)),
        smart=lambda: SmartRE('(?P<x>a)(b)?', ), smartla=lambda: Series(SmartRE('(?=(a))'), a), custom=lambda: Custom(custom),
        cap=lambda: cap(False), cap0=lambda: cap(True), err=lambda: Series(a, ERR('no')),
        fwd=fwd, drop=lambda: Series(a, Drop(Text('b')), a), dropfrom=lambda: Series(a, DropFrom(b), a),
        red0=lambda: TreeReduction(Series(a, Series(a, b)), 0), red2=lambda: TreeReduction(Series(a, Series(a, b)), 2))
    if k is None:
        return list(P)
    return P[k]()


def cap(zero):
    q = RegExp('[ab]?' if zero else '[ab]')
    q.pname = 'q'
    c = Capture(q, zero_length_warning=not zero)
    c.name('c')
    return Series(c, Retrieve(c), Pop(c))


def fwd():
    f = Forward()
    f.set(Alternative(Series(Text('a'), f), Text('b')))
    return f


def parts(cx, n):
    k = cx.choice('k', parser_of(None))
    t = cx.str('t', n, ANY)
    no_bom(cx, t)
    p = parser_of(k)
    named = cx.bool('named')
    if named and not isinstance(p, Forward) and not p.drop_content:
        p.name('named')
    q = copy.deepcopy(p)
    compare(cx, p, q, 'copy', {})
    r = copy.deepcopy((p, p))
    cx.check(r[0] is r[1], 'shared parsers stay shared')
    a = Grammar(p, static_analysis=False)
    ra = snap(a, a(t))
    b = Grammar(q, static_analysis=False)
    cx.check(snap(b, b(t)) == ra, 'same result', lambda: (k, t, ra))
    c = copy.deepcopy(a.root_parser__)       # a parser that is part of a grammar and has been used
    d = Grammar(c, static_analysis=False)
    cx.check(snap(d, d(t)) == ra, 'same result', lambda: (k, t, ra))
    cx.check(snap(a, a(t)) == ra, 'same result again', lambda: (k, t, ra))
    if k == 'rei':
        # flags of regular expressions are part of the parser
        ok = len(t) >= 1 and t[:1] in ('a', 'A') and len(t) <= 2
        cx.check((len(ra[1]) == 0) == ok, 'flags', lambda: (t, ra))
    if k == 'icasei':
        cx.check(t != 'İ' or len(ra[1]) == 0, 'ignore case', lambda: (t, ra))
    cx.observe(ra)


CHANGES = ['result', 'name', 'attr', 'new attr', 'pop attr', 'error', 'pos', 'children', 'swallow', 'tags', 'meta',
           'data', 'user', 'insert', 'remove', 'clear errors']


def rtree(cx, n):
    sh = cx.choice('shape', shapes(n) if n == 4 else shapes_upto(n))
    T = tree(cx, '', sh, maxlen=1, names=None, alphabet=ANY)
    T[2] = {'k': 'v'}
    if isinstance(T[1], list):
        T[1][0][2] = {'k': 'w', 'l': ''}
    root = cx.bool('root')
    src = build(T)
    haspos = cx.bool('haspos')
    if haspos:
        src.with_pos(3)
    e = -1
    if root:
        content = src.content
        src = RootNode(src, 'xyz' + content, None)
        nodes = list(src.select_if(lambda nd: True, include_root=True))
        e = cx.choice('e', [-1] + list(range(len(nodes)))) if haspos else -1
        if e >= 0:
            src.new_error(nodes[e], 'first', ErrorCode(1000))
        src.docname, src.stage, src.serialization_type = 'doc', 'AST', 'XML'
        src.inline_tags.add('x')
        src.user = 'data'
        if e < 0 and cx.bool('extern'):
            src.data = {'a': [1]}
    before = look(src)
    c = copy.deepcopy(src)
    if not haspos and cx.bool('twice'):
        c = copy.deepcopy(c)
    cx.check(type(c) is type(src), 'class')
    cx.check(look(src) == before, 'copying does not change the original', lambda: T)
    got = look(c)
    cx.check(got == before, 'equal', lambda: (T, got, before))
    cx.check(c.equals(src) and src.equals(c), 'equal', lambda: T)
    A = list(src.select_if(lambda nd: True, include_root=True))
    B = list(c.select_if(lambda nd: True, include_root=True))
    ids = {id(nd) for nd in A}
    cx.check(not any([id(nd) in ids for nd in B]), 'no common nodes', lambda: T)
    if root:
        for x, y in zip(A, B) if haspos else ():
            cx.check([str(z) for z in src.node_errors(x)] == [str(z) for z in c.node_errors(y)], 'errors of nodes',
                     lambda: (T, e))
        cx.check(not any([x is y for x in src.errors for y in c.errors]), 'no common errors', lambda: (T, e))
        for el in c.error_nodes.values():
            for x in el:
                cx.check(any([x is y for y in c.errors]), 'errors of nodes are those of the tree', lambda: (T, e))
        if isinstance(src.data, Node):
            cx.check(c.data is c, 'data')
        else:
            cx.check(c.data is not src.data and c.data == src.data, 'data')
    side = cx.choice('side', [0, 1])
    victim, other = (A, B) if side == 0 else (B, A)
    what = cx.choice('what', CHANGES)
    k = cx.choice('k', list(range(len(A))))
    nd, rt = victim[k], victim[0]
    if what == 'result':
        nd.result = 'changed'
    elif what == 'name':
        nd.name = 'changed'
    elif what == 'attr':
        nd.attr['k'] = 'changed'
    elif what == 'new attr':
        nd.attr['new'] = ''
    elif what == 'pop attr':
        if nd.has_attr():
            nd.attr.clear()
    elif what == 'pos':
        nd._pos = 77
    elif what == 'children':
        nd.result = nd.children + (Node('new', 'x'),)
    elif what == 'swallow':
        nd._children = ()
        nd._result = 'x'
    elif what == 'insert':
        if nd.children:
            nd.insert(0, Node('new', 'x'))
    elif what == 'remove':
        if nd.children:
            nd.remove(nd.children[0])
    elif root:
        if what == 'error' and haspos:
            rt.new_error(nd, 'second', ErrorCode(1001))
        elif what == 'tags':
            rt.inline_tags.add('new')
            rt.string_tags.clear()
            rt.empty_tags.add('new')
        elif what == 'meta':
            rt.docname, rt.stage, rt.serialization_type, rt.source = 'x', 'y', 'json', 'z'
        elif what == 'data':
            if isinstance(rt.data, dict):
                rt.data['a'].append(2)
            else:
                rt.data = 1
        elif what == 'user':
            rt.user = 'changed'
        elif what == 'clear errors':
            for x in rt.errors:
                x.message = 'changed'
            rt.errors.clear()
    after = look(other[0])
    cx.check(after == before, 'independent', lambda: (T, what, k, side, after, before))
    if what == 'error' and root and haspos:
        m = len(other[0].errors)
        other[0].new_error(other[k], 'second', ErrorCode(1001))
        cx.check(len(other[0].errors) == m + 1, 'the same error can be added to the other tree', lambda: (T, what, k, side))
    if root and e >= 0 and haspos:
        cx.check([z.message for z in other[0].node_errors(other[e])].count('first') == 1 or
                 len(look_errors(other[0])) != 1, 'errors are found at their nodes', lambda: (T, what, k, side))
    cx.observe(what)


def look_errors(rt):
    return [(x.message, x.pos, x.code) for x in rt.errors]


def look(nd):
    """everything observable"""
    r = [unbuild(nd), [x._pos for x in nd.select_if(lambda nd: True, include_root=True)]]
    if isinstance(nd, RootNode):
        r += [look_errors(nd), look_errors_sorted(nd), int(nd.error_flag), nd.docname, nd.stage,
              nd.serialization_type, sorted(nd.inline_tags), sorted(nd.string_tags), sorted(nd.empty_tags),
              str(nd.source), list(nd.lbreaks), sorted(nd.__dict__), getattr(nd, 'user', None),
              'self' if nd.data is nd else repr(nd.data)]
        for x in nd.select_if(lambda nd: True, include_root=True):
            r.append(sorted([z.message for z in nd.error_nodes.get(id(x), [])]))
    return r


def look_errors_sorted(rt):
    return [(x.message, x.pos) for x in rt.errors_sorted]


def parsed(cx, n):
    t = cx.str('t', n, ANY)
    no_bom(cx, t)
    name = cx.choice('name', ['mand', 'skip', 'capture'])
    gr = make(name)(static_analysis=False)
    tree_ = gr(t)
    before = look(tree_)
    c = copy.deepcopy(tree_)
    cx.check(look(c) == before, 'equal', lambda: (t, name, look(c), before))
    cx.check(c.equals(tree_), 'equal', lambda: (t, name))
    for x in c.errors:
        cx.check(x.line >= 0 and x.line == tree_.errors[c.errors.index(x)].line, 'lines', lambda: (t, name))
    gr('ab')
    cx.check(look(c) == before and look(tree_) == before, 'independent of the grammar', lambda: (t, name))
    cx.check(c.as_sxpr() == tree_.as_sxpr(), 'same serialization', lambda: (t, name))
    cx.observe(len(before))
