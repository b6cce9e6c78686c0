"""P11: tracing, history recording and profiling do not change the result of parsing."""
from hutil import Job, ANY
from histfam import GRAMS, make
from pegref import no_bom, FAMILY, grammar_class
from treeutil import unbuild
from DHParser.trace import set_tracer, trace_history, resume_notices_on, resume_notices_off
from DHParser.parse import Grammar
from DHParser.error import (RESUME_NOTICE, PARSER_STOPPED_BEFORE_END, PARSER_LOOKAHEAD_MATCH_ONLY,
                            PARSER_LOOKAHEAD_FAILURE_ONLY)
import DHParser.log as log_module
import DHParser.trace as trace_module

# only used for the excerpts shown with log entries
log_module.escape_ctrl_chars = lambda s: '...'
# only used for the excerpts in the messages of resume notices
trace_module.repr = lambda s: '...'

ASSUMPTIONS = ['the documents do not start with a byte order mark',
               'history recording may add resume notices, may append the state of parsing to the message on an '
               'incomplete match and may classify an incomplete match as a match with lookahead, as documented',
               'the excerpts shown in log entries and resume notices are replaced by a constant']

WAYS = ['trace', 'notices', 'silent', 'inactive', 'some', 'query', 'removed', 'twice']
FAM = ['icase', 'regex_empty', 'alwaysnever', 'choice_back', 'option', 'many_back', 'many_zero', 'cnt_alt', 'il_rep',
       'il_zero', 'la', 'nla_nla', 'la_end', 'lb', 'lb_text', 'memo', 'memo_la', 'rec', 'rec_mut', 'anbncn', 'ws',
       'synonym', 'dangling']


def jobs(tier):
    q = tier == 'quick'
    J = []
    n = 4 if q else 6
    for name in GRAMS:
        k = 3 if q and name == 'lookbehind' else n
        J.append(Job('gram-' + name, 'run', dict(name=name, n=k), weight=30, max_paths=200000,
                     bounds='grammar %s, texts of up to %d characters, any start symbol; %s' %
                            (name, k, ', '.join(WAYS))))
    for name in FAM:
        k = 3 if q and name in ('icase', 'lb_text') else n
        J.append(Job('fam-' + name, 'run', dict(name=name, n=k, fam=True), weight=20, max_paths=200000,
                     bounds='grammar %s, texts of up to %d characters; %s' % (name, k, ', '.join(WAYS))))
    return J


def look(nd):
    return [unbuild(nd), [x._pos for x in nd.select_if(lambda x: True, include_root=True)]]


def plain(e):
    m = e.message
    for cut in ('\n    Most advanced fail:',):
        i = m.find(cut)
        if i >= 0:
            m = m[:i]
    m = m.replace('Trying to recover but stopping history recording at this point.', 'Trying to recover...')
    return (e.code, e.pos, e.length, m)


def errors_of(t):
    return [plain(e) for e in t.errors if e.code != RESUME_NOTICE]


def run(cx, name, n, fam=False):
    t = cx.str('t', n, ANY)
    no_bom(cx, t)
    if fam:
        rules, starts = FAMILY[name], ['start']
        cls = grammar_class(rules)
    else:
        starts = GRAMS[name][1]
        cls = make(name)
    start = cx.choice('start', starts)
    way = cx.choice('way', WAYS)
    fresh = cls(static_analysis=False)
    x = fresh(t, start)
    gr = cls(static_analysis=False)
    if way == 'removed':
        set_tracer(gr, trace_history)
        gr(t, start)
        set_tracer(gr, None)
    elif way == 'notices':
        resume_notices_on(gr)
    elif way == 'some':
        # only the named parsers are traced
        set_tracer([p for p in gr.all_parsers__ if p.pname], trace_history)
    else:
        set_tracer(gr, trace_history)
        if way == 'silent':
            gr.resume_notices__ = False
        elif way == 'inactive':
            gr.history_tracking__ = False
        elif way == 'query':
            gr.cancel_query__ = lambda: False
        elif way == 'twice':
            gr(t, start)
    y = gr(t, start)
    info = lambda: (name, way, start, t)
    a, b = errors_of(x), errors_of(y)
    if PARSER_LOOKAHEAD_MATCH_ONLY in [e.code for e in y.errors]:
        cx.tag('lookahead')
        cx.check(way not in ('inactive', 'removed'), 'only with history', info)
        cx.check(PARSER_STOPPED_BEFORE_END in [e.code for e in x.errors], 'no complete match', lambda: (info(), a, b))
        i = [e[0] for e in a].index(PARSER_STOPPED_BEFORE_END)
        cx.check(a[:i] == b[:i], 'same errors until then', lambda: (info(), a, b))
        cx.check(y.content == t[:len(y.content)], 'content', lambda: (info(), y.content))
    else:
        cx.check(a == b, 'same errors', lambda: (info(), a, b))
        cx.check(look(x) == look(y), 'same tree', lambda: (info(), x.as_sxpr(), y.as_sxpr()))
        cx.check(x.error_flag == y.error_flag or bool(y.errors), 'severity', info)
    if way in ('silent', 'inactive', 'removed'):
        cx.check(not any([e.code == RESUME_NOTICE for e in y.errors]), 'no resume notices', info)
    if way in ('inactive', 'removed'):
        cx.check(gr.history__ == [], 'no history', info)
    else:
        for r in gr.history__:
            cx.check(r.status in (r.MATCH, r.DROP, r.FAIL) or r.status[:5] == 'ERROR' or r.errors != [], 'status',
                     lambda: (info(), r.status))
            if r.node is not None and r.node._pos >= 0:
                cx.check(r.node.pos + r.node.strlen() <= len(t), 'recorded matches lie in the text',
                         lambda: (info(), str(r.call_stack), r.node.pos, r.node.content))
    cx.check(gr.call_stack__ == [], 'call stack is empty afterwards', info)
    va = {k: [str(s) for s in v] for k, v in fresh.variables__.items() if v}
    vb = {k: [str(s) for s in v] for k, v in gr.variables__.items() if v}
    cx.check(va == vb, 'same variables', lambda: (info(), va, vb))
    set_tracer(gr, None)
    z = gr(t, start)
    cx.check(errors_of(z) == a and look(z) == look(x) and len(z.errors) == len(x.errors), 'as before after tracing',
             lambda: (info(), errors_of(z), a))
    cx.observe(a)
