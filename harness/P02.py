"""P02: line breaks, (line, column) and text position agree with the text."""
from hutil import Job, ANY, opt_int
from DHParser.stringview import StringView
from DHParser.toolkit import linebreaks, line_col, text_pos
from DHParser.error import Error, add_source_locations

ASSUMPTIONS = ['error positions handed to add_source_locations lie within the source',
               'lengths of errors are at least 1 (asserted by the Error class)']


def jobs(tier):
    q = tier == 'quick'
    J = []
    for n in range(0, (5 if q else 7) + 1):
        b = 'text of %d arbitrary characters (str or view), position in [-2, %d]' % (n, n + 2)
        J.append(Job('line_col-len%d' % n, 'linecol', {'n': n}, tags=['in', 'out'], bounds=b,
                     weight=n))
        if n <= (4 if q else 6):
            J.append(Job('text_pos-len%d' % n, 'textpos', {'n': n}, tags=['valid', 'invalid'],
                         bounds='text of %d arbitrary characters, line and column in [-1, %d]'
                                % (n, n + 2), weight=2 * n))
        if n <= (3 if q else 4):
            J.append(Job('error_location-len%d' % n, 'location', {'n': n},
                         tags=['clipped', 'fits'],
                         bounds='two errors in two texts of %d and <= 1 arbitrary character, '
                                'arbitrary positions, length 1..%d' % (n, n + 2),
                         weight=4 * n, max_paths=200000))
    return J


def the_text(cx, n):
    s = cx.str('t', n, ANY, minlen=n)
    kind = cx.choice('kind', ['str', 'view', 'cached'])
    if kind == 'str':
        return s, s
    pre = cx.str('pre', 1, ANY)
    v = StringView(pre + s + 'x\n')[len(pre):len(pre) + n]
    if kind == 'cached':
        str(v)
    return s, v


def ref_line_col(s, p):
    return s.count('\n', 0, p) + 1, p - s.rfind('\n', 0, p)


def linecol(cx, n):
    s, v = the_text(cx, n)
    p = cx.int('p', -2, n + 2)
    lb = linebreaks(v)
    # the list of line breaks: -1, positions of all linefeeds, length
    cx.check(lb[0] == -1 and lb[-1] == n, 'first and last entry')
    cx.check(len(lb) == s.count('\n') + 2, 'number of line breaks')
    for k in lb[1:-1]:
        cx.check(s[k] == '\n', 'linefeed at recorded position')
    for a, b in zip(lb, lb[1:-1]):
        cx.check(a < b, 'increasing')
    try:
        r = line_col(lb, p)
    except ValueError:
        cx.tag('out')
        cx.check(p < 0 or p > n, 'ValueError only outside of the text', lambda: (s, p))
        r = None
    if r is not None:
        cx.tag('in')
        cx.check(0 <= p and p <= n, 'ValueError outside of the text')
        rr = ref_line_col(s, p)
        cx.check(r[0] == rr[0], 'line', lambda: (s, p, r, rr))
        cx.check(r[1] == rr[1], 'column', lambda: (s, p, r, rr))
        back = text_pos(v, r[0], r[1])
        cx.check(back == p, 'text_pos is the inverse of line_col', lambda: (s, p, r, back))
        cx.check(text_pos(v, r[0], r[1], lb) == p, 'text_pos with given line breaks')
    cx.observe(lb, r)


def textpos(cx, n):
    s, v = the_text(cx, n)
    line, col = cx.int('line', -1, n + 2), cx.int('col', -1, n + 2)
    lb = linebreaks(v)
    r = text_pos(v, line, col, lb if cx.bool('given') else [])
    if r == -1:
        cx.tag('invalid')
        for p in range(n + 1):
            a, b = ref_line_col(s, p)
            cx.check(a != line or b != col, 'position exists', lambda: (s, line, col))
    else:
        cx.tag('valid')
        cx.check(0 <= r and r <= n, 'position lies in the text')
        a, b = ref_line_col(s, r)
        cx.check(a == line and b == col, 'position has this line and column')
    cx.observe(r)


def location(cx, n):
    s, v = the_text(cx, n)
    o = cx.str('o', 1, ANY)
    L, M = len(s), len(o)
    e1 = Error('one', 50 + cx.int('p1', 0, L), length=cx.int('l1', 1, L + 2))
    e2 = Error('two', 100 + cx.int('p2', 0, M), length=cx.int('l2', 1, M + 2))
    errs = [e1, e2] if cx.bool('order') else [e2, e1]
    l1, l2 = e1.length, e2.length

    other = 'A' if cx.bool('same_name') else 'B'

    def source_map(pos):
        return ('A', v, pos - 50) if pos < 100 else (other, o, pos - 100)

    add_source_locations(errs, source_map)
    for e, txt, doc, p, ln in ((e1, s, 'A', e1.pos - 50, l1), (e2, o, other, e2.pos - 100, l2)):
        cx.check(e.orig_doc == doc and e.orig_pos == p, 'original document and position')
        a, b = ref_line_col(txt, p)
        cx.check(e.line == a and e.column == b, 'line and column')
        cx.check(p == text_pos(txt, e.line, e.column), 'line and column invert')
        end = p + ln
        if end > len(txt):
            cx.tag('clipped')
            end = len(txt)
        else:
            cx.tag('fits')
        cx.check(e.length == end - p, 'length clipped to the text')
        a, b = ref_line_col(txt, end)
        cx.check(e.end_line == a and e.end_column == b, 'end line and column')
    cx.observe(e1.line, e1.column, e1.end_line, e1.end_column, e2.line, e2.column)
