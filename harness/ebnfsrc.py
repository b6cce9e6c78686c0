"""EBNF sources for grammar terms (see pegref) in several notations, and the reference for what
they denote: match with variables and the positions of the named symbols."""
import re
from pegref import norm, match, BRACKETS

SPECIAL = {'\n': '\\n', '\t': '\\t', '\\': '\\\\'}


class Printer:
    """terms -> EBNF. `sfx`: suffix notation, `grp`: 0 only necessary brackets, 1 around every
    subterm; `q`: quotes of literals; `sep`: and-operator, `alt`: or-operator; `hidden`: every
    operand gets a symbol of its own; `macro`: every operand passes through a macro;
    `times`: multiplication sign instead of ranges; `chars`: characters in place of one-character
    literals; `paren`: (2,3) instead of {2,3}"""
    def __init__(self, sfx=False, grp=False, q='`', sep=' ', alt=' | ', hidden=False, macro=False,
                 times=False, chars='', gap=' ', paren=False):
        self.__dict__.update(sfx=sfx, grp=grp, q=q, sep=sep, alt=alt, hidden=hidden, macro=macro,
                             times=times, chars=chars, gap=gap, paren=paren)
        self.extra = []
        self.macros = 0

    def macro_no(self, s):
        # calls of a macro cannot be nested
        d = max([int(k) + 1 for k in re.findall(r'\$m(\d+)\(', s)] or [0])
        self.macros = max(self.macros, d + 1)
        return d

    def lit(self, s):
        if self.chars and len(s) == 1:
            h = '%x' % ord(s)
            return {'0x': '0x' + h, '#x': '#x' + h, '\\x': '\\x' + h,
                    '[0x]': '[0x%s]' % h, '[0x-]': '[0x%s-0x%s]' % (h, h),
                    '/[]/': '/[%s]/' % s, '/[]|[]/': '/[%s]|[%s]/' % (s, s),
                    '[]': '[%s]' % s}[self.chars]
        return self.q + ''.join(SPECIAL.get(c, c) for c in s) + self.q[-1]

    def rx(self, r):
        return '/' + r.replace('/', '\\/') + '/'

    # binding strength: 0 alternative, 1 sequence, 2 interleave, 3 difference,
    # 4 term (with suffix or range), 5 element
    def sub(self, t, level, plain=False):
        """operand t in a place where the given binding strength is needed"""
        t = norm(t)
        if self.hidden and t[0] in ('seq', 'alt', 'opt', 'many', 'many1', 'cnt', 'il', 'diff') \
                and not plain:
            name = 'x%i' % len(self.extra)
            self.extra.append(None)
            self.extra[int(name[1:])] = (name, self.pr(t)[0])
            return name
        s, l = self.pr(t)
        if self.macro and not plain and t[0] not in ('ret', 'pop', 'opop', 'bpop'):
            if not s:
                return s
            return '$m%i(%s)' % (self.macro_no(s), s)
        if l < level or (self.grp and not plain):
            return '(' + self.gap + s + self.gap + ')'
        return s

    def pr(self, t):
        t = norm(t)
        op = t[0]
        if op == 't': return self.lit(t[1]), 5
        if op == 'i': return self.rx('(?i)' + re.escape(t[1])), 5
        if op == 'r': return self.rx(t[1]), 5
        if op == 'ws': return '~', 5
        if op == 'any': return '.', 5
        if op == 'always': return '``', 5
        if op == 'never': return '!' + self.sub(T0, 5), 1
        if op == 'seq': return self.sep.join(self.sub(x, 2 if norm(x)[0] not in LOOK else 1) for x in t[1:]), 1
        if op == 'mseq':
            parts = [self.sub(x, 2 if norm(x)[0] not in LOOK else 1) for x in t[2:]]
            if t[1] < len(parts):
                parts[t[1]] = '§' + parts[t[1]]
            return self.sep.join(parts), 1
        if op == 'alt': return self.alt.join(self.sub(x, 1) for x in t[1:]), 0
        if op == 'diff': return self.sub(t[1], 4) + ' - ' + self.sub(t[2], 5), 3
        if op in ('opt', 'many', 'many1'):
            k = dict(opt=0, many=1, many1=2)[op]
            if self.sfx:
                return self.sub(t[1], 5) + '?*+'[k], 4
            a, b = (('[', ']'), ('{', '}'), ('{', '}+'))[k]
            return a + self.gap + self.sub(t[1], 0) + self.gap + b, 4
        if op == 'cnt':
            x, lo, hi = t[1:]
            s = self.sub(x, 5)
            if self.times and lo == hi:
                return '%d * %s' % (lo, s), 4
            if self.times and lo == 0:
                return '%d * [%s]' % (hi, s), 4
            a, b = '()' if self.paren else '{}'
            return s + a + (str(lo) if lo == hi else '%d,%d' % (lo, hi)) + b, 4
        if op == 'il':
            return ' ° '.join(self.item(*x) for x in t[1:]), 2
        if op in LOOK:
            x = t[1]
            if op in ('lb', 'nlb') and norm(x)[0] == 't':
                x = ('r', re.escape(norm(x)[1]))
            return LOOK[op] + self.sub(x, 5, plain=op in ('lb', 'nlb')), 1
        if op == 'syn': return self.pr(t[1])
        if op == 'cap': return self.pr(t[1])
        if op == 'sym': return t[1], 5
        if op == 'ret': return ':' + t[1], 5
        if op in ('pop', 'bpop'): return '::' + t[1], 5
        if op == 'opop': return ':?' + t[1], 5
        raise ValueError(op)

    def item(self, x, lo, hi):
        if (lo, hi) == (1, 1):
            s, l = self.pr(x)
            # repetitions, as elements of an interleave, are multiplicities
            return '(' + s + ')' if norm(x)[0] in ('opt', 'many', 'many1', 'cnt') or l < 3 else s
        return self.pr(('opt', x) if (lo, hi) == (0, 1) else ('many', x) if (lo, hi) == (0, 99)
                       else ('many1', x) if (lo, hi) == (1, 99) else ('cnt', x, lo, hi))[0]


T0 = ('t', '')
LOOK = {'la': '&', 'nla': '!', 'lb': '<-&', 'nlb': '<-!'}


def source(rules, directives=(), define=' = ', end='', root='start', lead='', turned=False,
           **opts):
    p = Printer(**opts)
    lines = ['@ %s = %s' % d for d in directives]
    ws = [t[1] for t in rules.values() if norm(t)[0] == 'ws']
    if ws:
        lines.append('@ whitespace = /%s/' % ws[0])
    for name, t in rules.items():
        if filters(rules, name):
            lines.append('@ %s_filter = matching_bracket()' % name)
    names = [root] + [n for n in rules if n != root]
    if turned:
        names[1:] = names[:0:-1]
    for n in names:
        lines.append(n + define + lead + p.pr(rules[n])[0] + end)
    for k in range(p.macros):
        lines.append('HIDE:$m%i($x)%s$x%s' % (k, define, end))
    for n, s in p.extra:
        lines.append('HIDE:' + n + define + lead + s + end)
    return '\n'.join(lines) + '\n'


def filters(rules, name):
    return any(("('bpop', '%s')" % name) in repr(t) for t in rules.values())


def ematch(rules, t, s, i, st):
    """(end, variable stacks, named nodes) or None; named nodes: (name, start, end)* in the order
    of opening"""
    t = norm(t)
    op = t[0]
    if op in ('seq', 'mseq'):
        nn = ()
        for x in t[1 if op == 'seq' else 2:]:
            r = ematch(rules, x, s, i, st)
            if r is None:
                return None
            i, st, n = r
            nn += n
        return i, st, nn
    if op == 'alt':
        for x in t[1:]:
            r = ematch(rules, x, s, i, st)
            if r is not None:
                return r
        return None
    if op == 'diff':
        if ematch(rules, t[2], s, i, st) is not None:
            return None
        return ematch(rules, t[1], s, i, st)
    if op == 'opt':
        return ematch(rules, t[1], s, i, st) or (i, st, ())
    if op in ('many', 'many1', 'cnt'):
        lo, hi = {'many': (0, 99), 'many1': (1, 99)}.get(op) or (t[2], t[3])
        k, nn = 0, ()
        while k < hi:
            r = ematch(rules, t[1], s, i, st)
            if r is None:
                break
            k += 1
            st = r[1]
            nn += r[2]
            if r[0] == i:
                k = max(k, lo)
                break
            i = r[0]
        return (i, st, nn) if k >= lo else None
    if op == 'il':
        count = [0] * len(t[1:])
        go, nn = True, ()
        while go:
            go = False
            for k, (x, lo, hi) in enumerate(t[1:]):
                if count[k] < hi:
                    r = ematch(rules, x, s, i, st)
                    if r is not None:
                        i, st, n = r
                        nn += n
                        count[k] += 1
                        go = True
                        break
        return (i, st, nn) if all(c >= x[1] for c, x in zip(count, t[1:])) else None
    if op == 'la':
        return (i, st, ()) if ematch(rules, t[1], s, i, st) is not None else None
    if op == 'nla':
        return (i, st, ()) if ematch(rules, t[1], s, i, st) is None else None
    if op == 'sym':
        r = ematch(rules, rules[t[1]], s, i, st)
        if r is None:
            return None
        st = r[1]
        if rules[t[1]][0] == 'cap':
            st = dict(st)
            st[t[1]] = st.get(t[1], ()) + (s[i:r[0]],)
        return r[0], st, ((t[1], i, r[0]),) + r[2]
    if op in ('cap', 'syn'):
        return ematch(rules, t[1], s, i, st)
    if op == 'ret':
        if not st.get(t[1]):
            return None
        v = st[t[1]][-1]
        return (i + len(v), st, ()) if s[i:i + len(v)] == v else None
    if op in ('pop', 'opop', 'bpop'):
        if not st.get(t[1]):
            return None
        v = st[t[1]][-1]
        if op == 'bpop':
            v = ''.join(BRACKETS.get(c, c) for c in v)
        if s[i:i + len(v)] != v:
            if op != 'opop':
                return None
            v = ''
        new = dict(st)
        new[t[1]] = new[t[1]][:-1]
        return i + len(v), new, ()
    j = match(rules, t, s, i)
    return None if j is None else (j, st, ())


def named(node, names, acc, pos=0):
    """(name, start, end)* of the nodes of a tree with one of the given names"""
    if node.name in names:
        acc.append((node.name, pos, pos + len(node.content)))
    if node.children:
        for c in node.children:
            named(c, names, acc, pos)
            pos += len(c.content)
    return acc
