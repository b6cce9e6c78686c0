"""P25: JSON texts of the toolkit denote the same value as those of the standard library."""
import json
import P24
from hutil import Job
from DHParser.toolkit import (json_dumps, json_encode_string, json_rpc, pp_json, pp_json_str,
                              JSONstr, JSONnull)

ASSUMPTIONS = ['pp_json: strings do not contain linefeeds, which are written as one string per '
               'line for the sake of readability']

CH = [(0, 0xD7FF), (0xE000, 0x10FFFF)]
SOME = [(34, 34), (92, 92), (97, 98), (9, 10), (0, 0), (31, 31), (127, 127), (233, 233), (0x1F600, 0x1F600)]
FLAT = [(34, 34), (92, 92), (97, 97), (0, 0), (233, 233)]
THIN = [(34, 34), (97, 97)]


def jobs(tier):
    q = tier == 'quick'
    n = 2 if q else 3
    J = [Job('string', 'string', dict(n=n), weight=20, bounds='all texts of up to %d characters' % n),
         Job('stdstr', 'stdstr', dict(n=2 if q else 3), weight=10,
             bounds='texts of up to %d characters from quote, backslash, control characters, '
                    'ASCII, Latin-1 and astral characters' % (2 if q else 3))]
    d = 0 if q else 1
    for fn, txt in (('dumps', 'json_dumps with and without partial serialization'),
                    ('pretty', 'pp_json and pp_json_str')):
        J.append(Job('%s-%d' % (fn, d), fn, dict(d=d), weight=30, max_paths=400000,
                     bounds=txt + '; all values of depth 1..%d with up to 2 members per array or '
                     'object, atoms: texts and keys of up to 1 characters (quotes, backslash, '
                     'control characters, non-ASCII), special keys, integers, floats, '
                     'true, false, null' % (d + 2)))
    J.append(Job('partial', 'partial', dict(), weight=10, bounds='one part of a value, an item of an '
                 'array, the value in an object or the whole, already serialized; its text symbolic'))
    J.append(Job('rpc', 'rpc', dict(), weight=10, bounds='method names and parameters of up to 1..2 '
                 'characters, IDs -1..2 or none'))
    J.append(Job('refused', 'refused', dict(n=2 if q else 3), weight=10, bounds='malformed JSON-RPC '
                 'messages with up to %d arbitrary characters' % (2 if q else 3)))
    J.append(Job('responses', 'responses', dict(n=2 if q else 3), weight=10, bounds='results and '
                 'error messages with up to %d characters' % (2 if q else 3)))
    return J


def norm(v):
    """the value that stdlib JSON makes of v"""
    if isinstance(v, dict):
        d = {}
        for k, x in v.items():
            if k is True:
                k = 'true'
            elif k is False:
                k = 'false'
            elif k is None:
                k = 'null'
            elif isinstance(k, (int, float)) and not isinstance(k, bool):
                k = json.dumps(k)
            d[k] = norm(x)
        return d
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def alike(a, b):
    """same JSON value, with types"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        for (k, x), (l, y) in zip(a.items(), b.items()):
            if k != l or not alike(x, y):
                return False
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b))
    return not isinstance(b, (str, list, dict)) and a == b


def strict_string(s):
    """reads a JSON string according to RFC 8259"""
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        return None
    r, i = '', 1
    while i < len(s) - 1:
        c = s[i]
        if c == '"' or c < ' ':
            return None
        if c != '\\':
            r = r + c
            i += 1
            continue
        e = s[i + 1]
        for k, v in (('"', '"'), ('\\', '\\'), ('/', '/'), ('b', '\b'), ('f', '\f'),
                     ('n', '\n'), ('r', '\r'), ('t', '\t')):
            if e == k:
                r = r + v
                i += 2
                break
        else:
            if e != 'u' or i + 6 > len(s) - 1:
                return None
            n = 0
            for h in s[i + 2:i + 6]:
                if '0' <= h <= '9':
                    n = n * 16 + ord(h) - 48
                elif 'a' <= h <= 'f':
                    n = n * 16 + ord(h) - 87
                else:
                    return None
            r = r + chr(n)
            i += 6
    return r if i == len(s) - 1 else None


def string(cx, n):
    s = cx.str('s', n, CH)
    r = json_encode_string(s)
    cx.check(strict_string(r) == s, 'string is encoded as JSON string', lambda: (s, r))
    p = json_dumps(s, partially_serialized=True)
    cx.check(p == r, 'same with json_dumps', lambda: (s, p))
    cx.observe(r)


def stdstr(cx, n):
    s = cx.str('s', n, SOME)
    r = json_encode_string(s)
    cx.check(json.loads(r) == s, 'read by the standard library', lambda: (s, r))
    cx.check(json.loads(json_dumps(s)) == s, 'written with the standard library', lambda: (s, json_dumps(s)))
    cx.observe(json.loads(r))


class Num(int):
    def __repr__(self):
        return 'Num'


class Flt(float):
    def __repr__(self):
        return 'Flt'


ATOMS = ['str', 'int', 'other']
OTHER = [True, False, None, 0.5, -1e30, 1e-7, float('inf'), float('-inf'), float('nan'), 10**30, '',
         Num(3), Flt(2.5)]
KEYS = [1, -5, None, True, False, 0.5, Num(3), Flt(2.5), float('inf')]


def value(cx, key, d, abc, lean=False):
    kinds = ATOMS + (['list', 'dict', 'tuple'] if d >= 0 else [])
    k = cx.choice(key + 'k', kinds if not lean else [x for x in kinds if x != 'int'])
    if lean:
        abc = THIN
    if k == 'str':
        return cx.str(key + 's', 1, abc)
    if k == 'int':
        return cx.int(key + 'i', -2, 2)
    if k == 'other':
        return cx.choice(key + 'o', OTHER if not lean else [True, None, float('inf')])
    n = cx.choice(key + 'n', [0, 1, 2])
    if k != 'dict':
        L = [value(cx, '%s%d' % (key, i), d - 1 if i == 0 else -1, abc, lean or i > 0 or d == 0)
             for i in range(n)]
        return tuple(L) if k == 'tuple' else L
    D = {}
    for i in range(n):
        if i == 0 and cx.bool(key + 'odd'):
            D[cx.choice(key + 'odk', KEYS)] = 'x'
        else:
            D[cx.str('%sk%d' % (key, i), 1, abc, minlen=1 if i else 0)] = \
                value(cx, '%s%d' % (key, i), d - 1 if i == 0 else -1, abc, lean or i > 0 or d == 0)
    return D


def dumps(cx, d):
    v = value(cx, 'v', d, FLAT)
    part = cx.bool('partial')
    s = json_dumps(v, partially_serialized=part)
    info = lambda: (v, s)
    try:
        w = json.loads(s)
    except ValueError:
        cx.fail('valid JSON', info())
    cx.check(alike(norm(v), w), 'same value', info)
    if cx.bool('null'):
        s2 = json_dumps([JSONnull, JSONnull(), v], partially_serialized=part)
        cx.check(alike([None, None, norm(v)], json.loads(s2)), 'JSONnull', lambda: (v, s2))
    cx.observe(w)


def pretty(cx, d):
    v = value(cx, 'v', d, FLAT)
    s = pp_json(v)
    info = lambda: (v, s)
    try:
        w = json.loads(s)
    except ValueError:
        cx.fail('valid JSON', info())
    cx.check(alike(norm(v), w), 'same value', info)
    t = pp_json_str(json_dumps(v))
    cx.check(alike(norm(v), json.loads(t)), 'same value from JSON text', lambda: (v, t))
    cx.check(alike([None, norm(v), None], json.loads(pp_json([JSONnull, v, JSONnull()]))), 'JSONnull', info)
    cx.observe(w)


class Thing:
    def __init__(self, x):
        self.x = x


class Enc(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, Thing):
            return {'thing': o.x}
        return json.JSONEncoder.default(self, o)


def partial(cx):
    x = cx.str('x', 1, FLAT)
    k = cx.str('k', 1, FLAT)
    inner = [x, {k: x}]
    how = cx.choice('how', ['dumps', 'partial', 'custom'])
    if how == 'custom':
        ser, inner = Thing(x), {'thing': x}
    else:
        ser = JSONstr(json_dumps(inner, partially_serialized=how == 'partial'))
    where = cx.choice('where', ['whole', 'item', 'first', 'value', 'deep'])
    put = {'whole': lambda y: y, 'item': lambda y: [1, y], 'first': lambda y: [y, {}],
           'value': lambda y: {k: y, k + 'z': 2}, 'deep': lambda y: {'a': [[], [y]]}}[where]
    s = json_dumps(put(ser), partially_serialized=True, cls=Enc)
    info = lambda: (x, k, s)
    cx.check(alike(put(inner), json.loads(s)), 'partially serialized', info)
    cx.check(alike(put(inner), json.loads(pp_json(put(ser), cls=Enc))), 'pretty', info)
    if how == 'custom':
        cx.check(alike(put(inner), json.loads(json_dumps(put(ser), cls=Enc))), 'encoder', info)
    else:
        try:
            json_dumps(put(ser), cls=Enc)
            cx.fail('JSONstr refused unless announced', info())
        except TypeError:
            pass
    cx.observe(json.loads(s))


def rpc(cx):
    m = cx.str('m', 2, FLAT)
    p = cx.choice('p', ['list', 'dict', 'ser', 'default'])
    x = cx.str('x', 1, FLAT)
    P = {'list': [x, None], 'dict': {x: 1}, 'ser': [x], 'default': []}[p]
    if cx.bool('id'):
        ID = cx.int('ID', -1, 2)
    else:
        ID = None
    if p == 'default':
        s = json_rpc(m, ID=ID)
    elif p == 'ser':
        s = json_rpc(m, JSONstr(json_dumps(P)), ID)
    else:
        s = json_rpc(m, P, ID, partially_serialized=cx.bool('part'))
    ref = {'jsonrpc': '2.0', 'method': m, 'params': P}
    if ID is not None:
        ref['id'] = ID
    cx.check(alike(ref, json.loads(s)), 'RPC request', lambda: (s, ref))
    cx.observe(json.loads(s))


def refused(cx, n):
    """messages that are not valid JSON are answered with an error"""
    x = cx.bytes('x', n, [(34, 34), (92, 92), (97, 97), (123, 123), (125, 125), (44, 44), (0, 0),
                          (10, 10), (0xC3, 0xC3), (0xA9, 0xA9)])
    where = cx.choice('where', ['end', 'value', 'id', 'list'])
    pre, post = {'end': (b'{"jsonrpc":"2.0","method":"m"}', b''),
                 'value': (b'{"jsonrpc":"2.0","method":"', b'","id":1}'),
                 'id': (b'{"jsonrpc":"2.0","id":"', b'"}'),
                 'list': (b'[{"jsonrpc":"2.0"},"', b'"]')}[where]
    data = body = pre + x + post
    s = P24.new_server(P24.Recorder)
    w = P24.serve_stream(s, [b'Content-Length: %i\r\n\r\n' % len(data) + data], False)
    out = b''.join(w.written)
    info = lambda: (body, s.seen, out)
    cx.check(len(s.seen) + len(w.written) == 1, 'either called or refused', info)
    if w.written:
        i = out.find(b'{')
        cx.check(out[:i] == b'Content-Length: %i\r\n\r\n' % (len(out) - i), 'framed', info)
        try:
            r = json.loads(out[i:])
        except ValueError:
            cx.fail('response is valid JSON', info())
        cx.check(r['jsonrpc'] == '2.0' and isinstance(r['error']['message'], str), 'error', info)
    cx.observe(len(s.seen))


class Answer(P24.Server):
    async def run(self, method_name, method, params):
        return self.answer


def responses(cx, n):
    """results and errors are sent as valid JSON"""
    x = cx.str('x', n, FLAT)
    kind = cx.choice('kind', ['text', 'list', 'error', 'result-error', 'bytes', 'version', 'method'])
    s = P24.new_server(Answer)
    s.answer = {'text': (x, None), 'list': ([x, {x: None}], None), 'error': (None, (-32000, x)),
                'result-error': ({'error': {'code': 7, 'message': x}}, None),
                'bytes': (json_dumps({'a': x}).encode(), None)}.get(kind, ('', None))
    method = x + 'unknown' if kind == 'method' else 'echo'
    call = {'jsonrpc': '1' + x if kind == 'version' else '2.0', 'method': method, 'id': 5, 'params': {}}
    w = P24.Writer()
    serve_rpc(s, w, call)
    out = b''.join(w.written)
    info = lambda: (x, kind, out)
    i = out.find(b'{')
    cx.check(out[:i] == b'Content-Length: %i\r\n\r\n' % (len(out) - i), 'framed', info)
    try:
        r = json.loads(out[i:])
    except ValueError:
        cx.fail('response is valid JSON', info())
    cx.check(r['jsonrpc'] == '2.0' and r['id'] == 5, 'response', info)
    if kind in ('text', 'list', 'bytes'):
        cx.check(alike(r['result'], {'text': x, 'list': [x, {x: None}], 'bytes': {'a': x}}[kind]), 'result', info)
    elif kind in ('error', 'result-error'):
        cx.check(r['error'] == {'code': -32000 if kind == 'error' else 7, 'message': x}, 'error', info)
    else:
        cx.check(isinstance(r['error']['message'], str), 'error', info)
    cx.observe(r)


def serve_rpc(s, w, call):
    s.connection = P24.Connection(None, w, None)
    s.connection.active_tasks[5] = None
    P24.run(s.handle_jsonrpc_request(5, None, w, call))
