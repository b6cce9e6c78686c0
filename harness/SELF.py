"""Self-test of the engine: every path of these jobs is replayed on real str/re/int objects and
the observations must agree.  Not a property of the code under test."""
from hutil import Job, ANY
from DHParser.toolkit import re

OPS = ['find', 'slice', 'strip', 'split', 'case', 'regex', 'rsub', 'fmt', 'cmp', 'part', 'cont',
       'byts', 'arith']


def jobs(tier):
    return [Job(o, 'run', {'o': o}, tags=['done'], replays=10 ** 6) for o in OPS]


RX = [r'a*b', r'(a|ab)(c|bcd)?', r'\s+', r'[^a-c]+', r'\w+?\b', r'(?=a)a|.', r'^b|b$',
      r'(?P<x>a)(?P=x)', r'(?:ab?)+', r'(?<!a)b', r'(?i)A', r'a{2,3}', r'[\d_]+']


def run(cx, o):
    s = cx.str('s', 3, 'abA \n1' if o not in ('case', 'byts') else ANY if o == 'byts' else 'aAzé1ß')
    if o == 'find':
        t = cx.str('t', 2, 'ab ')
        a = cx.int('a', -3, 3)
        r = (s.find(t, a), s.rfind(t), s.count(t), s.startswith(t), s.endswith(t), t in s)
    elif o == 'slice':
        a, b = cx.int('a', -4, 4), cx.int('b', -4, 4)
        r = (s[a:b], s[a:], s[:b], s[::-1], s * 2, s + 'x' + s, len(s))
    elif o == 'strip':
        r = (s.strip(), s.lstrip('a '), s.rstrip('b\n'), s.removeprefix('a') if True else 0)
    elif o == 'split':
        r = (s.split(), s.split('a'), s.split('a', 1), s.splitlines(), s.rsplit(' ', 1),
             ','.join(s.split('\n')))
    elif o == 'case':
        r = (s.lower(), s.upper(), s.isalpha(), s.isdigit(), s.isidentifier(), s.casefold()
             if False else '', s.islower())
    elif o == 'regex':
        p = re.compile(cx.choice('rx', RX))
        m, q = p.match(s), p.search(s)
        r = (m and m.span(), q and q.span(), [x.span() for x in p.finditer(s)],
             m and m.groups(), bool(p.fullmatch(s)))
    elif o == 'rsub':
        p = re.compile(cx.choice('rx', RX))
        r = (p.sub('-', s), p.sub(lambda m: '<' + m.group(0) + '>', s), p.split(s))
    elif o == 'fmt':
        r = (f'{s}|{s!r}', '%s-%i' % (s, 3), 'x{}y'.format(s), repr(s), str(s))
    elif o == 'cmp':
        t = cx.str('t', 2, 'ab ')
        r = (s == t, s < t, s <= t, sorted([s, t]), max(s, t), s in ('a', 'ab', t))
    elif o == 'part':
        t = cx.str('t', 1, 'ab', minlen=1)
        r = (s.partition(t), s.rpartition(t), s.replace(t, 'xy'), s.replace('', '-'),
             s.rjust(4) + s.ljust(4, '.'))
    elif o == 'cont':
        d = {s: 1, 'a': 2}
        r = (d.get('a'), s in d, {'b', 'a'} & {s}, [x for x in ('a', 'b') if x in s],
             list(enumerate(s)), ord(s[0]) if s else 0, tuple(s), s and s[-1])
    elif o == 'byts':
        b = s.encode()
        r = (len(b), b[:1], b.find(b'a'))
    else:
        i, j = cx.int('i', -5, 5), cx.int('j', 1, 3)
        r = (i // j, i % j, abs(i), min(i, j), max(i, j), i * 2 - j, -i, i == j, divmod(i, j),
             list(range(max(i, 0))), str(i), bool(i), (i > 2) and (j < 2), i & 1 if i >= 0 else 0)
    cx.tag('done')
    cx.check(True, 'reached')
    cx.observe(r)
