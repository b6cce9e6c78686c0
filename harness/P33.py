"""P33: cancelling a parse (or a compilation) at any moment ends it cleanly."""
from hutil import Job, ANY
from histfam import GRAMS, make, snap
from pegref import no_bom
from DHParser.compile import compile_source, Compiler
from DHParser.error import CANCELED
import DHParser.parse as parse

ASSUMPTIONS = ['the documents do not start with a byte order mark',
               'the cancellation query is a function without side effects on the grammar']

NAMES = ('capture', 'retrieve', 'capla', 'mand', 'resume', 'skip', 'resumepar', 'leftrec', 'memo',
         'lookbehind', 'mandrec', 'mil', 'mandcap', 'il')


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in NAMES:
        n = 3 if q else 4
        J.append(Job('parse-' + name, 'cancel', {'name': name, 'n': n, 'polls': 6 if q else 12},
                     weight=10, tags=['cancelled', 'finished'],
                     bounds='grammar %s, text of 0..%d characters, cancelled at poll 0..%d, poll '
                            'at every or every second leaf call, then parsed again' %
                            (name, n, 5 if q else 11)))
    for name in ('capture', 'mand', 'leftrec', 'resume'):
        n = 3 if q else 4
        J.append(Job('compile-' + name, 'compilation', {'name': name, 'n': n, 'polls': 10},
                     weight=10, tags=['cancelled', 'finished', 'compiling'],
                     bounds='grammar %s, text of 0..%d characters, compile_source() cancelled '
                            'at poll 0..9' % (name, n)))
    return J


class Query:
    def __init__(self, k):
        self.k = k
        self.polls = 0
        self.hit = False

    def __call__(self):
        self.polls += 1
        self.hit = self.polls > self.k
        return self.hit


def cancel(cx, name, n, polls):
    t = cx.str('t', n, ANY)
    no_bom(cx, t)
    k = cx.choice('poll', list(range(polls)))
    interval = cx.choice('interval', [0, 1])
    cls = make(name)
    gr = cls(static_analysis=False)
    fresh = cls(static_analysis=False)
    expected = snap(fresh, fresh(t))
    q = Query(k)
    gr.cancel_query__ = q
    save = parse.CANCEL_QUERY_INTERVAL
    parse.CANCEL_QUERY_INTERVAL = interval
    try:
        tree = gr(t)
        errors = list(tree.errors)
        if q.hit:
            cx.tag('cancelled')
            cx.check(q.polls == k + 1, 'no further polls', lambda: (name, t, q.polls))
            cx.check([e.code for e in errors].count(CANCELED) == 1, 'one error says so',
                     lambda: (name, t, [str(e) for e in errors]))
            cx.check(tree.error_flag >= CANCELED, 'fatal')
            for e in errors:
                cx.check(0 <= e.pos <= len(t), 'position of errors')
            cx.check(not any(gr.variables__.values()), 'no captured values',
                     lambda: dict(gr.variables__))
            cx.check(tree.content == t[:len(tree.content)], 'no invented content',
                     lambda: (t, tree.content))
        else:
            cx.tag('finished')
            cx.check(snap(gr, tree) == expected, 'query does not change the result',
                     lambda: (name, t, snap(gr, tree), expected))
        gr.cancel_query__ = Query(10 ** 6)
        cx.check(snap(gr, gr(t)) == expected, 'as good as new with another query',
                 lambda: (name, t))
        gr.cancel_query__ = None
        cx.check(snap(gr, gr(t)) == expected, 'as good as new without query', lambda: (name, t))
    finally:
        parse.CANCEL_QUERY_INTERVAL = save
    cx.observe(q.hit, expected)


class Comp(Compiler):
    def reset(self):
        super().reset()
        self.seen = []

    def on_start(self, node):
        self.seen.append(node.name)
        return self.fallback_compiler(node)


def compilation(cx, name, n, polls):
    t = cx.str('t', n, ANY)
    no_bom(cx, t)
    if len(t):    # otherwise the source is taken for a file name
        cx.assume(t[0] != '\n')
    src = '\n' + t
    src = t + '\n'
    k = cx.choice('poll', list(range(polls)))
    q = Query(k)
    save = parse.CANCEL_QUERY_INTERVAL
    parse.CANCEL_QUERY_INTERVAL = 1
    try:
        comp = Comp()
        result, messages, ast = compile_source(src, None, make(name)(static_analysis=False),
                                               compiler=comp, cancel_query=q)
        cx.check(any(e.code == CANCELED for e in messages) == q.hit, 'reported iff cancelled',
                 lambda: (name, t, [str(e) for e in messages]))
        if q.hit:
            cx.tag('cancelled')
            cx.check(result is None, 'no result', lambda: (name, t, result))
            cx.check(q.polls == k + 1, 'no further polls', lambda: (name, t, q.polls))
            if comp.seen:
                cx.tag('compiling')
        else:
            cx.tag('finished')
        r2 = compile_source(src, None, make(name)(static_analysis=False), compiler=comp)
        r3 = compile_source(src, None, make(name)(static_analysis=False), compiler=Comp())
        cx.check(str(r2.result) == str(r3.result) and len(r2.messages) == len(r3.messages),
                 'the compiler is as good as new', lambda: (name, t, str(r2), str(r3)))
        if not q.hit:
            cx.check(str(result) == str(r3.result), 'query does not change the result',
                     lambda: (name, t))
    finally:
        parse.CANCEL_QUERY_INTERVAL = save
    cx.observe(q.hit, len(messages))
