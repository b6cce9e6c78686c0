"""P03: a sequence of edits of a TextBuffer equals splicing the text."""
from hutil import Job, ANY
from DHParser.stringview import TextBuffer, StringView

ASSUMPTIONS = ['lines end with LF or CRLF (no isolated carriage returns)',
               'edit ranges are ordered and lie on existing lines; columns beyond the end of a '
               'line mean the end of the line']


def jobs(tier):
    q = tier == 'quick'
    J = []
    J.append(Job('modes', 'edits', {'n': 1, 'r': 1, 'k': 1, 'st': None}, tags=['edited'],
                 weight=30, bounds='text and replacement of 1 arbitrary character, all ways to '
                                   'read and edit the buffer'))
    for n in range(0, (4 if q else 6) + 1):
        for r in range(0, (2 if q else 3) + 1):
            J.append(Job('one-edit-len%d-%d' % (n, r), 'edits',
                         {'n': n, 'r': r, 'k': 1, 'st': n + r},
                         tags=['edited'], weight=5 * n + r, max_paths=100000,
                         bounds='text of %d, replacement of %d arbitrary characters' % (n, r)))
    for n in range(0, (2 if q else 3) + 1):
        for r in range(0, (1 if q else 2) + 1):
            J.append(Job('two-edits-len%d-%d' % (n, r), 'edits',
                         {'n': n, 'r': r, 'k': 2, 'st': 2 * n + r},
                         tags=['edited'], weight=8 * n + r, max_paths=200000,
                         bounds='text of %d, two replacements of %d arbitrary characters'
                                % (n, r)))
    n = 1 if q else 2
    J.append(Job('list', 'edit_list', {'n': n}, tags=['edited'], weight=40, max_paths=200000,
                 bounds='text of %d arbitrary characters, a list of two edits applied at once, of up to '
                        'one character each' % n))
    return J


def no_lone_cr(cx, s):
    for i in range(len(s)):
        nxt = s[i + 1] if i + 1 < len(s) else 'x'
        cx.assume((s[i] != '\r') | (nxt == '\n') if cx.symbolic
                  else s[i] != '\r' or nxt == '\n')


def splice(ref, l1, c1, l2, c2, rep):
    """reference: absolute positions in the LF-normalised text"""
    def pos(line, col):
        p = 0
        for _ in range(line):
            p = ref.find('\n', p) + 1
        e = ref.find('\n', p)
        if e < 0:
            e = len(ref)
        return p + col if p + col < e else e
    a, b = pos(l1, c1), pos(l2, c2)
    return ref[:a] + rep + ref[b:]


MODES = ['none', 'lf', 'crlf', 'str', 'len']
HOW = ['update', 'change', 'edits']


def edits(cx, n, r, k, st):
    s = cx.str('t', n, ANY, minlen=n)
    no_lone_cr(cx, s)
    buf = TextBuffer(StringView(s) if (cx.bool('view') if st is None else st % 2) else s)
    ref = s.replace('\r\n', '\n')
    version = buf.version
    for i in range(k):
        rep = cx.str('r%d' % i, r, ANY, minlen=r)
        no_lone_cr(cx, rep)
        top = ref.count('\n')
        l1 = cx.int('l1_%d' % i, 0, top)
        l2 = cx.int('l2_%d' % i, 0, top)
        c1 = cx.int('c1_%d' % i, 0, n + 1)
        c2 = cx.int('c2_%d' % i, 0, n + 1)
        cx.assume(l1 <= l2)
        if l1 == l2:
            cx.assume(c1 <= c2)
        # reading the text in between must not influence the edits
        mode = cx.choice('mode_%d' % i, MODES) if st is None else MODES[(st + 3 * i) % 5]
        if mode == 'lf':
            buf.snapshot()
        elif mode == 'crlf':
            buf.snapshot('\r\n')
        elif mode == 'str':
            str(buf)
        elif mode == 'len':
            len(buf)
        how = cx.choice('how_%d' % i, HOW) if st is None else HOW[(st + i) % 3]
        if how == 'update':
            buf.update(l1, c1, l2, c2, rep)
        else:
            ed = {'range': {'start': {'line': l1, 'character': c1},
                            'end': {'line': l2, 'character': c2}},
                  'newText' if how == 'edits' else 'text': rep}
            buf.text_edits([ed] if how == 'edits' else ed)
        ref = splice(ref, l1, c1, l2, c2, rep.replace('\r\n', '\n'))
    cx.tag('edited')
    cx.check(buf.version == version + k, 'version counts the edits')
    if cx.bool('crlf_first') if st is None else st % 2:
        cx.check(str(buf.snapshot('\r\n')) == ref.replace('\n', '\r\n'), 'CRLF snapshot',
                 lambda: (s, str(buf.snapshot('\r\n')), ref))
    cx.check(str(buf) == ref, 'text after the edits', lambda: (s, str(buf), ref))
    cx.check(str(buf.snapshot()) == ref, 'LF snapshot')
    cx.check(str(buf.snapshot('\r\n')) == ref.replace('\n', '\r\n'), 'CRLF snapshot')
    cx.check(len(buf) == len(ref), 'length')
    cx.check(buf.lines() == ref.count('\n') + 1, 'number of lines')
    cx.observe(str(buf), buf.lines())


def edit_list(cx, n):
    """the edits of a list are applied one after the other"""
    s = cx.str('t', n, ANY, minlen=n)
    no_lone_cr(cx, s)
    buf = TextBuffer(s)
    ref = s.replace('\r\n', '\n')
    eds = []
    for i in range(2):
        rep = cx.str('r%d' % i, 1, 'a\n')
        top = ref.count('\n')
        l1 = cx.int('l1_%d' % i, 0, top)
        l2 = cx.int('l2_%d' % i, 0, top)
        c1 = cx.int('c1_%d' % i, 0, n + 1)
        c2 = cx.int('c2_%d' % i, 0, n + 1)
        cx.assume(l1 <= l2)
        if l1 == l2:
            cx.assume(c1 <= c2)
        eds.append({'range': {'start': {'line': l1, 'character': c1}, 'end': {'line': l2, 'character': c2}},
                    'newText': rep})
        ref = splice(ref, l1, c1, l2, c2, rep)
    buf.text_edits(eds, 7)
    cx.tag('edited')
    cx.check(str(buf) == ref, 'edits one after the other', lambda: (s, str(buf), ref))
    cx.check(buf.version == 7, 'version as given')
    cx.observe(str(buf))
