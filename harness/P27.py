"""P27: configuration changes are visible where they should be and nowhere else."""
import types
from hutil import Job
import DHParser.configuration as conf
from DHParser.configuration import (get_config_value, get_config_values, set_config_value,
                                    add_config_values, reset_config_dict, access_presets,
                                    finalize_presets, set_preset_value, get_preset_value,
                                    get_preset_values, is_accessing_presets, validate_value,
                                    dump_config_data, read_config_string)

ASSUMPTIONS = ['the thread-local store is the one object handed out by access_thread_locals(); a '
               'thread is modelled by the store it is given',
               'operations on the configuration are atomic (they hold the access lock)',
               'configuration values are not read while the presets are being accessed',
               'the start method for processes is "fork"']

KEYS = ['max_parser_dropouts', 'default_serialization', 'x.range', 'x.new']
SNAP = None


def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    J = []
    for k in ('set', 'preset', 'get', 'group', 'reset', 'add', 'pread'):
        J.append(Job('history-' + k, 'history', dict(n=n, first=k), weight=60, max_paths=900000,
                     bounds='all histories of %d operations beginning with "%s" on two threads and up to '
                            'four keys, followed by reading everything in both and in a new thread' % (n, k)))
    J += [Job('two', 'two', dict(n=4 if q else 5), weight=60, max_paths=900000,
              bounds='all histories of %d operations (set, preset, group read with two patterns) on one '
                     'thread and two keys' % (4 if q else 5)),
          Job('values', 'values', dict(), weight=5,
              bounds='all integers for ranges, all strings of up to 2 characters for value sets, '
                     'sets of such strings'),
          Job('ingest', 'ingest', dict(), weight=5,
              bounds='two lines with valid and invalid keys and values, two sections'),
          Job('dump', 'dump', dict(), weight=5,
              bounds='two to three keys of up to two sections in any order, one of seven values each')]
    return J


def fresh():
    global SNAP
    if SNAP is None:
        SNAP = dict(conf.CONFIG_PRESET)
    conf.CONFIG_PRESET.clear()
    conf.CONFIG_PRESET.update(SNAP)
    conf.CONFIG_PRESET['x.range'] = 5
    conf.ALLOWED_PRESET_VALUES['x.range'] = (0, 9)
    conf.ACCESSING_PRESETS = False
    conf.PRESETS_CHANGED = False
    conf.THREAD_LOCALS = types.SimpleNamespace()


def thread(store):
    conf.THREAD_LOCALS = store


def match(k, pat):
    if pat == '*':
        return True
    if pat[-1:] == '*':
        return k[:len(pat) - 1] == pat[:-1]
    return k == pat


class Model:
    def __init__(self):
        self.P = dict(conf.CONFIG_PRESET)
        self.C = [{}, {}]

    def valid(self, k, v):
        if k == 'x.range':
            return 0 <= v and v <= 9
        if k == 'default_serialization':
            return False            # integers are no serializations
        return True


def value(cx, name, k):
    if k == 'default_serialization':
        return cx.choice(name + 's', ['XML', 'foo'])
    return cx.int(name + 'v', -2, 12)


def ok(k, v):
    if k == 'x.range':
        return 0 <= v and v <= 9
    if k == 'default_serialization':
        return v == 'XML'
    return True


def step(cx, M, T, i, op, t, keys, group=None):
    thread(T[t])
    C = M.C[t]
    if op == 'set' or op == 'preset' or op == 'add':
        k = cx.choice('k%d' % i, keys)
        v = value(cx, 'v%d' % i, k)
        new = op != 'add' and k == 'x.new' and cx.bool('new%d' % i)
        good = ok(k, v)
        known = k in M.P or (op == 'set' and k in C)
        if op == 'add':
            add_config_values({k: v})
            C[k] = v
            return
        if op == 'preset':
            access_presets()
            cx.check(is_accessing_presets(), 'access')
        try:
            (set_config_value if op == 'set' else set_preset_value)(k, v, allow_new_key=new)
            done = True
        except ValueError:
            done = False
        if op == 'preset':
            cx.check(get_preset_value(k, None) == (v if done else M.P.get(k)), 'preset', lambda: (i, k, v))
            finalize_presets()
        cx.check(not is_accessing_presets(), 'access')
        cx.check(done == (good and (known or new)), 'validation', lambda: (i, k, v, new))
        if done:
            C[k] = v
            if op == 'preset':
                M.P[k] = v
    elif op == 'get':
        k = cx.choice('k%d' % i, keys)
        dflt = cx.bool('d%d' % i)
        if k not in C:
            for kk, vv in M.P.items():
                if kk not in C:
                    C[kk] = vv
        try:
            got = get_config_value(k, -77) if dflt else get_config_value(k)
        except KeyError:
            got = 'KeyError'
        want = C.get(k, -77 if dflt else 'KeyError')
        cx.check(got == want, 'value read', lambda: (i, t, k, got, want))
    elif op == 'group':
        pats = group or cx.choice('p%d' % i, [['*'], ['x.*'], ['max_parser_dropouts', 'x.*'],
                                             ['x.new', 'default_serialization'], ['y.*', 'x.r*', '*dropouts']])
        r = get_config_values(*pats)
        want = {}
        for d in (M.P, C):
            for kk, vv in d.items():
                for p in pats:
                    if match(kk, p) or p == '*dropouts' and kk[-8:] == 'dropouts':
                        want[kk] = vv
        cx.check(r == want, 'group of values', lambda: (i, t, pats, small(r), small(want)))
        C.update(want)
    elif op == 'reset':
        reset_config_dict()
        C.clear()
    elif op == 'pread':
        access_presets()
        r = get_preset_values('x.*')
        finalize_presets()
        cx.check(r == {k: v for k, v in M.P.items() if match(k, 'x.*')}, 'presets', lambda: (i, r))


def small(d):
    return {k: v for k, v in d.items() if k in KEYS}


def final(cx, M, T, keys):
    for t in range(len(T)):
        thread(T[t])
        for k in keys:
            C = M.C[t]
            if k not in C:
                for kk, vv in M.P.items():
                    if kk not in C:
                        C[kk] = vv
            got = get_config_value(k, 'none')
            cx.check(got == C.get(k, 'none'), 'value at the end', lambda: (t, k, got, C.get(k)))
    thread(types.SimpleNamespace())
    for k in keys:
        got = get_config_value(k, 'none')
        cx.check(got == M.P.get(k, 'none'), 'value in a new thread', lambda: (k, got, M.P.get(k)))
    allv = get_config_values('*')
    for k in keys:
        cx.check(allv.get(k, 'none') == M.P.get(k, 'none'), 'group read in a new thread', lambda: k)


def history(cx, n, first):
    fresh()
    M = Model()
    T = [types.SimpleNamespace(), types.SimpleNamespace()]
    for i in range(n):
        # the first operation is done by the first thread (symmetry)
        op = first if i == 0 else cx.choice('op%d' % i, ['set', 'preset', 'get', 'group', 'reset', 'add', 'pread'])
        t = 0 if i == 0 else cx.choice('t%d' % i, [0, 1])
        keys = KEYS if i == 0 or n == 3 and i == 1 and first in ('reset', 'pread') \
            else ['x.range', 'x.new']
        step(cx, M, T, i, op, t, keys)
    final(cx, M, T, KEYS)
    cx.tag('end')
    cx.observe(n)


def two(cx, n):
    fresh()
    M = Model()
    T = [types.SimpleNamespace()]
    keys = ['max_parser_dropouts', 'x.range']
    for i in range(n):
        op = cx.choice('op%d' % i, ['set', 'preset', 'group'])
        pats = cx.choice('p%d' % i, [['max_parser_dropouts', 'x.range'], ['x.*', 'max_parser*']]) \
            if op == 'group' else None
        step(cx, M, T, i, op, 0, keys, pats)
    final(cx, M, T, keys)
    cx.observe(n)


def values(cx):
    fresh()
    k = cx.choice('k', ['x.range', 'default_serialization', 'optimizations', 'log_dir'])
    kind = cx.choice('kind', ['int', 'str', 'set', 'tuple', 'float'])
    if kind == 'int':
        v = cx.int('v', -20, 20)
    elif kind == 'float':
        v = cx.choice('f', [0.0, 9.0, 9.5, -0.5])
    else:
        def item(nm):
            return cx.str(nm, 2, [(97, 98)]) if cx.bool(nm + 'b') else \
                cx.choice(nm + 'c', ['XML', 'sxpr', 'xml', 'lookahead', ''])
        v = item('s') if kind == 'str' else [item('s'), item('t')][:cx.choice('n', [0, 1, 2])]
        if kind == 'tuple':
            v = tuple(v)
    allowed = conf.ALLOWED_PRESET_VALUES.get(k)
    if k == 'x.range':
        want = 'ok' if kind in ('int', 'float') and 0 <= v and v <= 9 else \
            'ValueError' if kind in ('int', 'float') else 'TypeError'
    elif k == 'log_dir':
        want = 'ok'
    else:
        items = [v] if kind in ('int', 'float', 'str') else v
        want = 'ok'
        for x in items:
            if not any([x == a for a in allowed]):
                want = 'ValueError'
    before = dict(conf.CONFIG_PRESET)
    for fn in ('validate', 'set', 'preset'):
        got = 'ok'
        try:
            if fn == 'validate':
                validate_value(k, v)
            elif fn == 'set':
                set_config_value(k, v)
            else:
                access_presets()
                set_preset_value(k, v)
        except (ValueError, TypeError) as e:
            got = 'ValueError' if isinstance(e, ValueError) else 'TypeError'
        if fn == 'preset':
            finalize_presets()
        cx.check(got == want, 'validation', lambda: (fn, k, v, got, want))
        now = get_config_value(k) if fn == 'set' else conf.CONFIG_PRESET[k]
        cx.check(now == (v if got == 'ok' and fn != 'validate' else before[k]), 'rejected values are not set',
                 lambda: (fn, k, v, now))
    cx.observe(want)


def ingest(cx):
    fresh()
    want, bad, lines = {}, False, []
    for i in range(2):
        sec = cx.choice('sec%d' % i, ['DHParser', 'x'])
        if sec == 'DHParser':
            k = cx.choice('k%d' % i, ['max_parser_dropouts', 'default_serialization', 'unknown_key'])
        else:
            k = cx.choice('l%d' % i, ['range', 'foo'])
        v = cx.choice('v%d' % i, ['3', '"XML"', '99', 'undefined', '{', '"100% %%"'])
        lines.append((sec, k, v))
    cx.assume(lines[0][:2] != lines[1][:2])
    text = ''
    for s in ('DHParser', 'x'):
        ll = ['%s = %s' % (k, v.replace('%', '%%')) for sec, k, v in lines if sec == s]
        if ll:
            text = text + '[%s]\n' % s + '\n'.join(ll) + '\n'
    try:
        read_config_string(text)
        r = 'ok'
    except Exception as e:
        r = type(e).__name__
    cx.check(not is_accessing_presets(), 'presets are closed again', lambda: (text, r))
    for s, k, v in lines:
        key = k if s == 'DHParser' else s + '.' + k
        good = v not in ('undefined', '{') and (s != 'DHParser' or k != 'unknown_key')
        if good:
            val = {'3': 3, '"XML"': 'XML', '99': 99, '"100% %%"': '100% %%'}[v]
            if key == 'x.range' and val != 3 or key == 'default_serialization' and val != 'XML':
                good = False
        if not good:
            bad = True
        else:
            want[key] = val
    cx.check((r != 'ok') == bad, 'errors are reported', lambda: (text, r))
    if r == 'ok' or r == 'ValueError':
        for k, v in want.items():
            cx.check(conf.CONFIG_PRESET.get(k) == v, 'valid entries take effect', lambda: (text, k))
    cx.check(get_config_value('flatten_sxpr_threshold') == 120, 'configuration is still usable')
    cx.observe(r)


def dump(cx):
    fresh()
    keys = ['max_parser_dropouts', 's.a', 't.b', 's.c', 't.d']
    ks = [cx.choice('k%d' % i, keys) for i in range(cx.choice('n', [2, 3]))]
    cx.assume(len(set(ks)) == len(ks))
    vals = {k: cx.choice('v%d' % i, [0, "it's \"q\"", '50%', '#no; comment', 'a\nb', {'k': [1]}] if i != 1 else ['x', '%']) for i, k in enumerate(ks)}
    for k, v in vals.items():
        set_config_value(k, v, allow_new_key=True)
    text = dump_config_data('s.*', 'max_parser_*', 't.*')
    fresh()
    read_config_string(text)
    thread(types.SimpleNamespace())
    for k, v in vals.items():
        got = get_config_value(k, None)
        cx.check(got == v, 'dump can be read back', lambda: (text, k, got))
    flat = dump_config_data('s.*', use_headings=False)
    cx.check(flat.count('=') >= len([k for k in ks if k[0] == 's']), 'all entries', lambda: flat)
    cx.observe(text)
