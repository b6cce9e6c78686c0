"""P07: parsing does not depend on the history of the grammar object."""
import copy
from hutil import Job, ANY
from histfam import GRAMS, make, snap
from pegref import no_bom

ASSUMPTIONS = ['the documents do not start with a byte order mark',
               'the grammar object is used by one thread at a time']


def jobs(tier):
    q = tier == 'quick'
    J = []
    for name in GRAMS:
        n1, n2 = (2, 2) if q else (2, 3)
        J.append(Job('twice-' + name, 'twice', {'name': name, 'n1': n1, 'n2': n2}, weight=20,
                     bounds='grammar %s, first text 0..%d, second text 0..%d arbitrary characters, '
                            'all start symbols, complete match required or not' % (name, n1, n2)))
        J.append(Job('repeat-' + name, 'repeat', {'name': name, 'n': n2 + 2}, weight=10,
                     bounds='grammar %s, the same text of 0..%d characters parsed three times by '
                            'the same object and once by another' % (name, n2 + 2)))
        J.append(Job('analysis-' + name, 'analysis', {'name': name, 'n': n2 + 2}, weight=5,
                     bounds='grammar %s, with and without static analysis, text of 0..%d '
                            'characters' % (name, n2)))
        J.append(Job('cancel-' + name, 'cancelled', {'name': name, 'n1': 2, 'n2': n2},
                     weight=10, bounds='grammar %s, first text (0..2 characters) cancelled at any '
                                       'poll, second text 0..%d' % (name, n2)))
    return J


def same(cx, name, a, b, what):
    cx.check(a == b, what, lambda: (name, a, b))


def twice(cx, name, n1, n2):
    t1 = cx.str('t1', n1, ANY)
    t2 = cx.str('t2', n2, ANY)
    no_bom(cx, t1)
    no_bom(cx, t2)
    starts = GRAMS[name][1]
    s1 = cx.choice('s1', starts)
    s2 = cx.choice('s2', starts[:2])
    m1 = cx.choice('m1', [True, False])
    gr = make(name)(static_analysis=False)
    gr(t1, s1, complete_match=m1)
    r = snap(gr, gr(t2, s2))
    fresh = make(name)(static_analysis=False)
    same(cx, name, r, snap(fresh, fresh(t2, s2)), 'result after another document')
    dup = copy.deepcopy(gr)
    same(cx, name, r, snap(dup, dup(t2, s2)), 'result of a copy of the used object')
    cx.observe(r)


def repeat(cx, name, n):
    t = cx.str('t', n, ANY)
    no_bom(cx, t)
    cls = make(name)
    gr = cls(static_analysis=False)
    r = snap(gr, gr(t))
    other = cls(static_analysis=False)
    same(cx, name, snap(gr, gr(t)), r, 'second time')
    same(cx, name, snap(other, other(t)), r, 'other object')
    same(cx, name, snap(gr, gr(t)), r, 'third time')
    cx.observe(r)


def analysis(cx, name, n):
    t = cx.str('t', n, ANY)
    no_bom(cx, t)
    gr = make(name)(static_analysis=False)
    an = make(name, analysis=True)(static_analysis=True)
    r = snap(gr, gr(t))
    same(cx, name, snap(an, an(t)), r, 'first parse after static analysis')
    cx.observe(r)


def cancelled(cx, name, n1, n2):
    t1 = cx.str('t1', n1, ANY)
    t2 = cx.str('t2', n2, ANY)
    no_bom(cx, t1)
    no_bom(cx, t2)
    k = cx.choice('poll', [0, 1, 3])
    gr = make(name)(static_analysis=False)
    polls = [0]

    def query():
        polls[0] += 1
        return polls[0] > k
    gr.cancel_query__ = query
    import DHParser.parse as parse
    save = parse.CANCEL_QUERY_INTERVAL
    parse.CANCEL_QUERY_INTERVAL = 0
    try:
        gr(t1)
        gr.cancel_query__ = None
        r = snap(gr, gr(t2))
    finally:
        parse.CANCEL_QUERY_INTERVAL = save
    fresh = make(name)(static_analysis=False)
    same(cx, name, r, snap(fresh, fresh(t2)), 'result after a cancelled parse')
    cx.observe(r)
