"""P24: messages are framed correctly, however the stream is divided into chunks.

The coroutines of the server are run with a reader that delivers the bytes in chunks whose borders
are symbolic; reading, waiting and writing never suspends, so that no event loop is needed."""
from hutil import Job
from DHParser import server
from DHParser.server import (Server, split_header, read_full_block, incomplete_header,
                             http_response, JSONRPC_HEADER_BYTES, pick_value)

ASSUMPTIONS = ['the stream consists of messages with headers',
               'header fields: Content-Length, optionally preceded or followed by Content-Type',
               'requests are carried out one after the other as they are received']

BYTE = [(0, 255)]
TEXT = [(10, 10), (13, 13), (67, 67), (97, 122)]


def jobs(tier):
    q = tier == 'quick'
    c = 'headers with Content-Length alone, or with Content-Type before or after it'
    J = [Job('split', 'split', dict(n=2 if q else 3), weight=10,
             bounds='a message with body of up to %d arbitrary bytes followed by up to 2 more, cut off '
                    'anywhere; %s' % (2 if q else 3, c)),
         Job('serve-one', 'serve', dict(k=1, n=2, cuts=2 if q else 3, full=True), weight=30, max_paths=500000,
             bounds='one message, body of up to 2 arbitrary bytes, up to %d cuts anywhere; %s'
                    % (2 if q else 3, c)),
         Job('serve-two', 'serve', dict(k=2, n=1, cuts=1 if q else 2, full=True), weight=30, max_paths=500000,
             bounds='two messages, bodies of up to 1 arbitrary bytes, up to %d cuts anywhere; %s'
                    % (1 if q else 2, c)),
         Job('serve-three', 'serve', dict(k=3, n=1, cuts=1 if q else 2, full=False), weight=30, max_paths=500000,
             bounds='three messages, bodies of up to 1 arbitrary bytes, up to %d cuts anywhere' % (1 if q else 2)),
         Job('rpc', 'rpc', dict(cuts=1 if q else 2), weight=30, max_paths=500000,
             bounds='JSON-RPC-messages before, after and between plain messages, up to %d cuts '
                    'anywhere' % (1 if q else 2)),
         Job('answer', 'answer', dict(n=2), weight=10,
             bounds='one or two plain messages, answered with up to 2 arbitrary characters, as text '
                    'or bytes'),
         Job('block', 'block', dict(n=1 if q else 2, cuts=2), weight=20, max_paths=500000,
             bounds='read_full_block: a message with up to %d arbitrary bytes, followed by up to %d '
                    'bytes, up to 2 cuts; %s' % (1 if q else 2, 1 if q else 2, c)),
         Job('block-long', 'block_long', dict(cuts=3 if q else 5), weight=20, max_paths=500000,
             bounds='read_full_block: a message with up to 4 fixed bytes, followed by up to 3 bytes, up '
                    'to %d cuts behind the header' % (3 if q else 5)),
         Job('http', 'http', dict(n=2 if q else 3), weight=5,
             bounds='HTTP-responses with up to %d arbitrary characters' % (2 if q else 3))]
    return J


class Reader:
    """delivers the chunks; a call of read() returns at most one chunk"""

    def __init__(self, chunks, at_once, read_all=False):
        self.chunks = chunks
        self.ended = False
        self.at_once = at_once
        self.read_all = read_all
        self.calls = 0

    async def read(self, n=-1):
        self.calls += 1
        if self.calls > 60:
            raise RuntimeError('reads without end')
        if not self.chunks:
            self.ended = True
            return b''
        c = self.chunks[0]
        if n is not None and 0 <= n < len(c):
            self.chunks[0] = c[n:]
            return c[:n]
        self.chunks.pop(0)
        if self.at_once and not self.chunks:
            self.ended = True
        return c

    def at_eof(self):
        return self.ended

    def feed_eof(self):
        self.ended = True


class Writer:
    def __init__(self):
        self.written = []

    def write(self, data):
        self.written.append(data)

    async def drain(self):
        pass

    async def wait_closed(self):
        pass

    def write_eof(self):
        pass

    def close(self):
        pass


class Connection(server.Connection):
    def create_task(self, json_id, coroutine):
        self.active_tasks[json_id] = None
        run(coroutine)


def run(coroutine):
    try:
        coroutine.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError('coroutine has been suspended')


class Recorder(Server):
    async def handle_plaindata_request(self, task_id, reader, writer, data, service_call=False):
        self.seen.append(('plain', data))
        self.connection.task_done(task_id)

    async def handle_jsonrpc_request(self, json_id, reader, writer, json_obj, service_call=False):
        self.seen.append(('rpc', json_obj))
        self.connection.task_done(json_id)

    async def handle_http_request(self, task_id, reader, writer, data, service_call=False):
        self.seen.append(('http', data))
        self.connection.task_done(task_id)


class Echo(Server):
    async def run(self, method_name, method, params):
        self.seen.append(params)
        return self.answers[len(self.seen) - 1], None


def echo(text):
    return text


CACHE = {}


def new_server(cls):
    if cls not in CACHE:
        CACHE[cls] = cls(echo, cpu_bound=set(), strict_lsp=False)
    s = CACHE[cls]
    s.seen = []
    s.connection = None
    s.kill_switch = False
    s.loop = s
    return s


def serve_stream(s, chunks, at_once):
    saved = server.Connection
    server.Connection = Connection
    w = Writer()
    try:
        run(s.handle(Reader(chunks, at_once), w))
    finally:
        server.Connection = saved
    return w


def header(cx, key, n, full=True):
    h = cx.choice(key, ['L', 'LT', 'TL', 'lf'] if full else ['L'])
    L, T = b'Content-Length: %i' % n, b'Content-Type: x'
    if h == 'lf':
        return L + b'\n\n'
    return {'L': L, 'LT': L + b'\r\n' + T, 'TL': T + b'\r\n' + L}[h] + b'\r\n\r\n'


def cut(cx, data, cuts, first=1):
    """divides data by up to so many cuts"""
    P = [0]
    for i in range(cx.choice('cuts', list(range(cuts + 1)))):
        p = cx.int('cut%d' % i, first, len(data) - 1)
        cx.assume(p > P[-1])
        P.append(p)
    P.append(len(data))
    return [data[a:b] for a, b in zip(P, P[1:])]


def split(cx, n):
    body = cx.bytes('body', n, BYTE)
    more = cx.bytes('more', 2, BYTE)
    h = header(cx, 'h', len(body))
    full = h + body + more
    k = cx.int('k', 0, len(full))
    info = lambda: (full, k)
    try:
        a, b, c = split_header(full[:k])
    except ValueError:
        cx.fail('beginning of a message is recognized', info())
    if k < len(h) + len(body):
        cx.check(len(a) == 0 and len(c) == 0 and b == full[:k], 'incomplete: unchanged', info)
        if k < len(h):
            cx.check(incomplete_header(full[:k]), 'incomplete header', info)
    else:
        cx.check(a == h and b == body and c == full[len(h) + len(body):k], 'split', info)
    cx.observe(len(a))


def serve(cx, k, n, cuts, full):
    msgs = []
    for i in range(k):
        body = cx.bytes('body%d' % i, n, BYTE)
        msgs.append(header(cx, 'h%d' % i, len(body), full) + body)
    data = b''.join(msgs)
    chunks = cut(cx, data, cuts)
    sizes = [len(c) for c in chunks]
    s = new_server(Recorder)
    serve_stream(s, chunks, cx.bool('at_once'))
    info = lambda: (msgs, sizes, s.seen)
    cx.check(len(s.seen) == len(msgs), 'number of messages', info)
    for (kind, d), m in zip(s.seen, msgs):
        cx.check(kind == 'plain' and d == m, 'each message by itself', info)
    cx.observe(len(s.seen))


def rpc(cx, cuts):
    which = cx.choice('which', ['J', 'JP', 'PJ', 'JJ'])
    full = which == 'J'
    msgs, want = [], []
    for i, c in enumerate(which):
        b = cx.bytes('b%d' % i, 1, TEXT)
        if c == 'J':
            v = cx.choice('v%d' % i, [0, 7 + i])
            b = b'{"jsonrpc":"2.0","method":"m","id":%i}' % v
            want.append(('rpc', {'jsonrpc': '2.0', 'method': 'm', 'id': v}))
            m = header(cx, 'h%d' % i, len(b), full) + b
        else:
            m = header(cx, 'h%d' % i, len(b), full) + b
            want.append(('plain', m))
        msgs.append(m)
    cx.assume(not (which == 'JJ' and want[0] == want[1]))      # IDs are unique
    chunks = cut(cx, b''.join(msgs), cuts)
    sizes = [len(c) for c in chunks]
    s = new_server(Recorder)
    w = serve_stream(s, chunks, cx.bool('at_once'))
    cx.check(s.seen == want, 'messages received', lambda: (msgs, sizes, s.seen, w.written))
    cx.check(not w.written, 'no complaints', lambda: (msgs, sizes, w.written))


def frames(data):
    """reads messages"""
    r = []
    while data:
        i = data.find(b'\r\n\r\n')
        assert i > 0 and data[:15] == b'Content-Length:'
        n = int(data[15:i])
        r.append(data[i + 4:i + 4 + n])
        if len(r[-1]) < n:
            return None
        data = data[i + 4 + n:]
    return r


def answer(cx, n):
    s = new_server(Echo)
    A = []
    for i in range(cx.choice('k', [1, 2])):
        a = cx.str('a%d' % i, n if i == 0 else 1, [(33, 0xD7FF), (0xE000, 0x10FFFF)], minlen=1 if i else 0)
        cx.assume(a[:1] != '{')
        A.append(a.encode('utf-8') if cx.bool('bytes%d' % i) else a)
    s.answers = A
    w = serve_stream(s, [b'Content-Length: 1\r\n\r\nx' * len(A)], False)
    want = [a if isinstance(a, bytes) else a.encode('utf-8') for a in A]
    out = b''.join(w.written)
    got = frames(out)
    cx.check(s.seen == [('x',)] * len(A), 'requests', lambda: s.seen)
    cx.check(got == want, 'responses are framed', lambda: (A, out))
    cx.observe(len(out))


def block_long(cx, cuts):
    # the content does not matter here
    body = b'abcd'[:cx.choice('b', [0, 1, 2, 3, 4])]
    more = b'xyz'[:cx.choice('m', [0, 1, 3])]
    h = header(cx, 'h', len(body), full=False)
    check_block(cx, h, body, more, cut(cx, h + body + more, cuts, len(h) - 1))


def block(cx, n, cuts):
    body = cx.bytes('body', n, BYTE)
    more = cx.bytes('more', n, BYTE)
    h = header(cx, 'h', len(body))
    check_block(cx, h, body, more, cut(cx, h + body + more, cuts))


def check_block(cx, h, body, more, chunks):
    info = lambda: (h, body, more, [len(c) for c in copy])
    copy = list(chunks)
    size, data, backlog = run(read_full_block(Reader(chunks, cx.bool('at_once'))))
    cx.check(size == len(h), 'size of the header', info)
    cx.check(data == h + body, 'the message and nothing else', lambda: (info(), data, backlog))
    rest = b''.join(chunks)
    cx.check(backlog + rest == more, 'nothing lost', lambda: (info(), data, backlog))
    cx.observe(size)


def http(cx, n):
    s = cx.str('s', n, [(0, 0xD7FF), (0xE000, 0x10FFFF)])
    as_bytes = cx.bool('bytes')
    b = s.encode('utf-8')
    r = http_response(b if as_bytes else s)
    i = r.find(b'Content-Length: ')
    e = r.find(b'\n', i)
    cx.check(int(r[i + 16:e]) == len(b), 'content length', lambda: r)
    cx.check(r.endswith(b'\n\n' + b), 'content', lambda: r)
    cx.observe(len(r))
