# -*- coding: utf-8 -*-
"""C17: the HTTP client: framing of messages over every segmentation and crash point, pipelines, redirects, credentials."""
import itertools
import logging
import re
import StringIO
import mclib
import pyslet.rfc2616 as http
import pyslet.rfc2617 as auth
import pyslet.rfc2396 as uri

logging.disable(logging.CRITICAL)
CRLF = '\r\n'


class Stuck(Exception):
    pass


class Clock(object):
    now, calls, limit = 1000.0, 0, 3000

    def time(self):
        self.calls += 1
        if self.calls > self.limit:
            raise Stuck('the connection makes no progress')
        self.now += 0.0001
        return self.now


CLOCK = Clock()
http.time = CLOCK


class Sock(object):
    """one connection to a server"""

    def __init__(self, world, host, port):
        self.world, self.host, self.port = world, host, port
        self.sent, self.out, self.pos, self.end, self.closed = '', '', 0, None, False
        self.parsed = 0         # how much of what was sent the server has used
        self.waiting = []       # what the server will say, once nobody has anything to do

    def send(self, data):
        if self.closed or self.end == 'reset' and self.pos >= len(self.out):
            raise http.socket.error('broken pipe')
        n = max(1, min(len(data), self.world.accepts(self, len(data))))
        self.sent += data[:n]
        if self.end is None:
            self.world.server(self)
        return n

    def recv(self, n):
        if self.pos < len(self.out):
            stop = min([c for c in self.world.cuts if c > self.pos] + [len(self.out), self.pos + n])
            data = self.out[self.pos:stop]
            self.pos = stop
            return data
        if self.end == 'reset':
            raise http.socket.error('connection reset')
        return ''

    def readable(self):
        return self.pos < len(self.out) or self.end is not None or self.closed

    def say(self, data, end=None):
        self.out += data
        self.end = self.end or end

    def shutdown(self, how):
        self.closed = True

    def close(self):
        self.closed = True


class World(object):
    def __init__(self, server, cuts=(), accept=None):
        self.server, self.cuts, self.accept = server, cuts, accept
        self.socks = []

    def accepts(self, sock, n):
        if self.accept is None:
            return n
        if isinstance(self.accept, int):
            return self.accept
        return min([c - len(sock.sent) for c in self.accept if c > len(sock.sent)] + [n])

    def select(self, readers, writers, errors, timeout):
        r = [s for s in readers if s.readable()]
        if not r and not writers and (timeout is None or timeout > 0):
            woken = False
            for s in self.socks:
                if s.waiting and s.end is None:
                    s.say(*s.waiting.pop(0))
                    woken = True
            if not woken:
                CLOCK.now += timeout or 1
            r = [s for s in readers if s.readable()]
        return r, list(writers), []


class Conn(http.Connection):
    def NewSocket(self):
        with self.connectionLock:
            if self.connectionClosed:
                raise http.HTTPException('Connection closed')
            world = self.manager.world
            self.socket = self.socketFile = Sock(world, self.host, self.port)
            self.socketSelect = world.select
            world.socks.append(self.socket)


class Manager(http.HTTPRequestManager):
    ConnectionClass = SecureConnectionClass = Conn

    def __init__(self, world, **kw):
        http.HTTPRequestManager.__init__(self, **kw)
        self.world = world
        self.socketSelect = world.select
        self.httpUserAgent = None

    def _NewConnection(self, target, timeout=None):
        return Conn(self, *target)


class Request(http.HTTPRequest):
    """counts how often it is finished"""
    finished = 0

    def Finished(self):
        self.finished += 1
        http.HTTPRequest.Finished(self)

    def Resend(self, url=None):
        self.finished -= 1
        http.HTTPRequest.Resend(self, url)


def go(manager, *requests):
    """the failure of processing the requests, or None"""
    CLOCK.calls = 0
    try:
        for r in requests:
            manager.QueueRequest(r)
        manager.ThreadLoop(60)
    except mclib.StopExploring:
        raise
    except Exception, e:
        return '%s: %s' % (type(e).__name__, str(e)[:160])


# ------------------------------------------------------------------ a server's view of what is sent
def parse_request(data):
    """(method, url, version, headers, body, length), or None if there is more to come, or a string: what is wrong"""
    i = data.find(CRLF + CRLF)
    if i < 0:
        return None
    lines = data[:i].split(CRLF)
    m = re.match(r'([A-Z]+) (\S+) (HTTP/\d\.\d)\Z', lines[0])
    if not m:
        return 'request line %r' % lines[0]
    hs = {}
    for l in lines[1:]:
        h = re.match(r"([!#$%&'*+\-.^_`|~0-9A-Za-z]+):[ \t]*([^\r\n]*)\Z", l)
        if not h or h.group(1).lower() in hs:
            return 'header %r' % l
        hs[h.group(1).lower()] = h.group(2).strip()
    i += 4
    if 'transfer-encoding' in hs:
        body = ''
        while True:
            j = data.find(CRLF, i)
            if j < 0:
                return None
            if not re.match('[0-9a-fA-F]+\\Z', data[i:j]):
                return 'chunk size %r' % data[i:j]
            n = int(data[i:j], 16)
            i = j + 2
            if len(data) < i + n + 2:
                return None
            if data[i + n:i + n + 2] != CRLF:
                return 'the end of a chunk is %r' % data[i + n:i + n + 2]
            body += data[i:i + n]
            i += n + 2
            if n == 0:
                break
    else:
        if not hs.get('content-length', '0').isdigit():
            return 'content length %r' % hs['content-length']
        n = int(hs.get('content-length', '0'))
        if len(data) < i + n:
            return None
        body = data[i:i + n]
        i += n
    return m.group(1), m.group(2), m.group(3), hs, body, i


class Server(object):
    """answers requests from a list or by a function; keeps them"""

    def __init__(self, answers, lazy=False):
        self.answers = answers
        self.requests = []
        self.problems = []
        self.lazy = lazy

    def __call__(self, sock):
        while True:
            r = parse_request(sock.sent[sock.parsed:])
            if r is None:
                return
            if isinstance(r, str):
                self.problems.append(r)
                return sock.say('', 'eof')
            sock.parsed += r[5]
            self.requests.append((sock,) + r[:5])
            a = self.answers(sock, *r[:5]) if callable(self.answers) else self.answers[len(self.requests) - 1]
            if a is not None:
                a = (a, None) if isinstance(a, str) else a
                if self.lazy:
                    sock.waiting.append(a)
                else:
                    sock.say(*a)


# ------------------------------------------------------------------ responses
class Message(object):
    """a response as it is on the wire, and what it means"""

    def __init__(self, name, wire, status, reason, headers, body, method='GET', close=False):
        self.name, self.wire, self.status, self.reason, self.headers, self.body = name, wire, status, reason, headers, body
        self.method, self.close = method, close


def chunked(parts, sizes='%x', ext='', last='0', trailer=''):
    out = ''
    for p in parts:
        out += sizes % len(p) + ext + CRLF + p + CRLF
    return out + last + CRLF + trailer + CRLF


def good(thorough):
    out = []

    def add(name, first, headers, content, status, reason, hs, body, **kw):
        out.append(Message(name, first + CRLF + ''.join([h + CRLF for h in headers]) + CRLF + content, status, reason, hs, body, **kw))
    bodies = ['', 'a', 'hello\r\n\r\nHTTP/1.1 200 X\r\n\r\n', '0\r\n\r\n', '\r\n', '\x00\xff' * 3]
    ok = 'HTTP/1.1 200 OK'
    for i, b in enumerate(bodies):
        add('length|%i' % i, ok, ['Content-Length: %i' % len(b)], b, 200, 'OK', {'content-length': str(len(b))}, b)
        add('close|%i' % i, ok, [], b, 200, 'OK', {}, b, close=True)
        for n in (1, 2, 5):
            parts = [b[k:k + n] for k in range(0, len(b), n)]
            if n == 1 or len(parts) > 1:
                add('chunked|%i|%i' % (i, n), ok, ['Transfer-Encoding: chunked'], chunked(parts), 200, 'OK', {'transfer-encoding': 'chunked'}, b)
    ch = {'transfer-encoding': 'chunked'}
    for name, h, c in (('upper', 'chunked', chunked(['abcdefghijk'], '%X')), ('zeros', 'chunked', chunked(['abc'], '00%x', last='000')), ('ext', 'chunked', chunked(['abc', 'd'], ext=';a=b')),
                       ('ext2', 'chunked', chunked(['abc'], ext=' ; a="x;y"; c', last='0;z')), ('trailer', 'chunked', chunked(['abc'], trailer='T: 1\r\nU: 2\r\n'))):
        hs = dict(ch, **({'t': '1', 'u': '2'} if name == 'trailer' else {}))
        add('chunked|' + name, ok, ['Transfer-Encoding: ' + h], c, 200, 'OK', hs, 'abcdefghijk' if name == 'upper' else 'abcd' if name == 'ext' else 'abc')
    add('chunked|case', ok, ['transfer-encoding:Chunked'], chunked(['abc']), 200, 'OK', {'transfer-encoding': 'Chunked'}, 'abc')
    add('chunked|length', ok, ['Content-Length: 2', 'Transfer-Encoding: chunked'], chunked(['abc']), 200, 'OK', dict(ch, **{'content-length': '2'}), 'abc')
    add('identity', ok, ['Transfer-Encoding: identity', 'Content-Length: 2'], 'ab', 200, 'OK', {'transfer-encoding': 'identity', 'content-length': '2'}, 'ab')
    add('identity|case', ok, ['Transfer-Encoding: Identity', 'Content-Length: 2'], 'ab', 200, 'OK', {'transfer-encoding': 'Identity', 'content-length': '2'}, 'ab')
    for st in ('204 No Content', '304 Not Modified'):
        for h in ([], ['Content-Length: 10'], ['Transfer-Encoding: chunked']):
            add('none|%s|%s' % (st, h), 'HTTP/1.1 ' + st, h, '', int(st[:3]), st[4:], dict([x.lower().split(': ') for x in h]), '')
    for h in ([], ['Content-Length: 10'], ['Transfer-Encoding: chunked']):
        add('head|%s' % h, ok, h, '', 200, 'OK', dict([(x.split(': ')[0].lower(), x.split(': ')[1]) for x in h]), '', method='HEAD')
    L = ['Content-Length: 1']
    l = {'content-length': '1'}
    for first, st, reason in (('HTTP/1.1 200 ', 200, ''), ('HTTP/1.1 404 Not Found', 404, 'Not Found'), ('HTTP/1.1 500 It\'s (not "so) good, \xe9', 500, 'It\'s (not "so) good, \xe9'), ('HTTP/1.1 299 a  b', 299, 'a  b'),
                              ('HTTP/1.1 200 200', 200, '200'), ('HTTP/1.1 403 a=b', 403, 'a=b'), ('HTTP/1.7 200 OK', 200, 'OK')):
        add('status|' + first, first, L, 'x', st, reason, l, 'x')
    add('status|1.0', 'HTTP/1.0 200 OK', L, 'x', 200, 'OK', l, 'x', close=True)
    add('close|header', ok, L + ['Connection: close'], 'x', 200, 'OK', dict(l, connection='close'), 'x', close=True)
    add('close|header2', ok, L + ['connection: X, Close'], 'x', 200, 'OK', dict(l, connection='X, Close'), 'x', close=True)
    for hs, want in ((['X: 1'], '1'), (['X:1'], '1'), (['x:  1 \t'], '1'), (['X: 1', 'x: 2'], '1, 2'), (['X: 1', ' 2'], '1 2'), (['X: 1', '\t 2', ' 3'], '1 2 3'), (['X:'], ''), (['X: a:b: c'], 'a:b: c'),
                     (['X: "a, b", c'], '"a, b", c'), (['X: \xe9'], '\xe9'), (['X:', ' 1'], '1'), (['Y: 2', 'X: 1'], '1')):
        add('header|%s' % hs, ok, hs + L, 'x', 200, 'OK', dict(l, x=want, **({'y': '2'} if len(hs) == 2 and hs[0][0] == 'Y' else {})), 'x')
        add('header|%s|last' % hs, ok, L + hs, 'x', 200, 'OK', dict(l, x=want, **({'y': '2'} if len(hs) == 2 and hs[0][0] == 'Y' else {})), 'x')
    for pre in (['HTTP/1.1 100 Continue'], ['HTTP/1.1 102 P', 'X: 1'], ['HTTP/1.1 100 Continue', 'Content-Length: 5']):
        p = CRLF.join(pre) + CRLF + CRLF
        for k in (1, 2):
            out.append(Message('info|%s|%i' % (pre, k), p * k + ok + CRLF + L[0] + CRLF + CRLF + 'x', 200, 'OK', l, 'x'))
    return out


BAD = [
    'FOO\r\n\r\n', '\r\n\r\n', 'HTTP/1.1\r\n\r\n', 'HTTP/1.1 OK\r\n\r\n', 'HTTP/1.1 2OO OK\r\nContent-Length: 0\r\n\r\n', 'HTTP/x 200 OK\r\nContent-Length: 0\r\n\r\n', 'HTTP 200 OK\r\n\r\n',
    'HTTP/1.1 200 OK\r\nnocolon\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 200 OK\r\nContent-Length: 0\r\nnocolon\r\n\r\n',
    'HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n', 'HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\nabc', 'HTTP/1.1 200 OK\r\nContent-Length: 1 2\r\n\r\nabc', 'HTTP/1.1 200 OK\r\nContent-Length: 3\r\nContent-Length: 2\r\n\r\nabc',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n\r\nabc\r\n0\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nx\r\nabc\r\n0\r\n\r\n',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-3\r\nabc\r\n0\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0x3\r\nabc\r\n0\r\n\r\n',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n;a=b\r\nabc\r\n0\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcde\r\n0\r\n\r\n',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nnocolon\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3 3\r\nabc\r\n0\r\n\r\n',
    'HTTP/1.1 200 OK\r\nContent-Length: "\r\n\r\nabc', 'HTTP/1.1 200 OK\r\nContent-Length: (1\r\n\r\nabc',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"\r\nabc\r\n0\r\n\r\n',
]
NEXT = 'HTTP/1.1 201 Next\r\nContent-Length: 3\r\n\r\nxyz'


def norm(v):
    return re.sub('[ \t\r\n]+', ' ', v).strip()


def success(r, m, stream, anyhow=False):
    """what is wrong with the outcome of a request, or None"""
    if not r.done or r.finished != 1:
        return 'done is %r, finished %i times' % (r.done, r.finished)
    body = r.resBodyStream.getvalue() if stream else r.resBody
    got = (r.status, r.response.status, norm(r.response.reason or ''), dict([(k, norm(v[1])) for k, v in r.response.headers.items()]), body)
    want = (m.status, m.status, norm(m.reason), dict([(k, norm(v)) for k, v in m.headers.items()]), m.body)
    if got != want or r.error is not None and not anyhow:
        return 'the response is %r (error %s), not %r' % (got, r.error, want)


def failed(r):
    """what is wrong with the outcome of a request that has failed, or None"""
    if not r.done or r.finished != 1:
        return 'done is %r, finished %i times' % (r.done, r.finished)
    if r.status != 0 or r.error is None:
        return 'the status is %r, the error %r' % (r.status, r.error)


def cutsets(n, thorough):
    yield ()
    yield tuple(range(1, n))
    for i in range(1, n):
        yield (i,)
    if thorough:
        for i in range(1, n):
            for j in range(i + 1, n):
                yield (i, j)
        for k in (2, 3, 5):
            yield tuple(range(k, n, k))


def get(method='GET', path='/', stream=False, **kw):
    r = Request('http://a.example' + path, method, resBody=StringIO.StringIO() if stream else None, **kw)
    r.autoRedirect = False
    return r


def responses(ctx):
    ms = good(ctx.thorough)
    ctx.bounds['responses'] = len(ms)
    for m in ms:
        wire = m.wire + ('' if m.close else NEXT)
        for stream in (False, True):
            for cuts in cutsets(len(wire), ctx.thorough and len(wire) < 120):
                if not ctx.mine():
                    continue
                ctx.case(['response', m.name.encode('string_escape'), stream, list(cuts)])
                key = 'response|%s|%s|%s' % (m.name.encode('string_escape'), stream, cuts)
                ctx.transitions += len(cuts) + 1
                world = World(None, cuts)
                server = world.server = Server([(m.wire, 'eof' if m.close and 'Content-Length' not in m.wire else None), NEXT])
                mgr = Manager(world)
                a, b = get(m.method, stream=stream), get()
                f = go(mgr, a) if m.close else go(mgr, a, b)
                if not ctx.check(f is None, key, '%r: %s' % (m.wire, f)):
                    continue
                if m.close:
                    f = go(mgr, b)
                    ctx.check(f is None and len(world.socks) == 2 and world.socks[0].closed, key, '%r: the connection is not closed %s' % (m.wire, f))
                wrong = success(a, m, stream)
                ctx.check(wrong is None, key, '%r cut at %s: %s' % (m.wire, cuts, wrong))
                ctx.outcome((m.name, wrong is None))
                wrong = success(b, Message('', '', 201, 'Next', {'content-length': '3'}, 'xyz'), False)
                ctx.check(wrong is None, key, 'after %r cut at %s: %s' % (m.wire, cuts, wrong))
                ctx.check(not mgr.ActiveCount() and len(mgr.cIdleList) == 1, key, 'connections are left active')
    # what comes with a response but is no answer to anything is not the answer to what is asked later
    for m in ms:
        for junk in ('x', '\r\n', NEXT.replace('Next', 'Junk'), NEXT[:20]):
            if m.close or not ctx.mine():
                continue
            ctx.case(['junk', m.name.encode('string_escape'), junk])
            key = 'junk|%s|%s' % (m.name.encode('string_escape'), junk[:12].encode('string_escape'))
            ctx.transitions += 1
            world = World(None)
            world.server = Server([m.wire + junk, NEXT])
            mgr = Manager(world)
            a, b = get(m.method), get()
            f = go(mgr, a) or go(mgr, b)
            wrong = f or success(a, m, False) or success(b, Message('', '', 201, 'Next', {'content-length': '3'}, 'xyz'), False)
            ctx.check(wrong is None, key, '%r: %s' % (m.wire + junk, wrong))
    for wire in BAD:
        for cuts in cutsets(len(wire), ctx.thorough):
            if not ctx.mine():
                continue
            for end in ('eof', None):
                ctx.case(['bad', wire.encode('string_escape'), list(cuts), end])
                key = 'bad|%s|%s|%s' % (wire.encode('string_escape'), cuts, end)
                ctx.transitions += len(cuts) + 1
                world = World(None, cuts)
                world.server = Server([(wire, end), NEXT])
                mgr = Manager(world)
                a, b = get(), get()
                f = go(mgr, a)
                if f and f.startswith('Stuck') and end is None:
                    # a client may wait for more of what is no message
                    continue
                if not ctx.check(f is None, key, '%r: %s' % (wire, f)):
                    continue
                wrong = failed(a)
                ctx.check(wrong is None, key, '%r: %s' % (wire, wrong))
                world.cuts = ()
                f = go(mgr, b)
                wrong = f or success(b, Message('', '', 201, 'Next', {'content-length': '3'}, 'xyz'), False)
                ctx.check(wrong is None, key, 'after %r: %s' % (wire, wrong))


def truncations(ctx):
    """the server stops after any number of bytes"""
    ms = good(ctx.thorough)
    for m in ms:
        wire = m.wire + ('' if m.close else NEXT)
        for k in range(len(wire) + 1):
            if not ctx.mine():
                continue
            for end in ('eof', 'reset'):
                for cuts in ((), tuple(range(1, len(wire)))):
                    ctx.case(['truncation', m.name.encode('string_escape'), k, end, bool(cuts)])
                    key = 'truncation|%s|%i|%s|%s' % (m.name.encode('string_escape'), k, end, bool(cuts))
                    ctx.transitions += 1
                    world = World(None, cuts)
                    n = [0]

                    def server(sock, n=n):
                        r = parse_request(sock.sent[sock.parsed:])
                        while r:
                            sock.parsed += r[5]
                            n[0] += 1
                            if n[0] == 1:
                                sock.say(wire[:min(k, len(m.wire))], end if k < len(m.wire) or m.close else None)
                            elif len(world.socks) == 1:
                                sock.say(wire[len(m.wire):k], end)
                            else:
                                sock.say(NEXT)
                            r = parse_request(sock.sent[sock.parsed:])
                    world.server = server
                    mgr = Manager(world)
                    a, b = get(m.method), get()
                    f = go(mgr, a) if m.close else go(mgr, a, b)
                    if not ctx.check(f is None, key, '%r, %s: %s' % (wire[:k], end, f)):
                        continue
                    headend = m.wire.find(CRLF + CRLF) + 4
                    forever = m.close and 'Content-Length' not in m.wire
                    if k >= len(m.wire) and not forever:
                        wrong = success(a, m, False)
                    elif forever and k >= headend:
                        if end == 'reset' and a.status == 0:
                            wrong = failed(a)       # either may be said of it
                        else:
                            wrong = success(a, Message('', '', m.status, m.reason, m.headers, m.body[:k - headend]), False, end == 'reset')
                    else:
                        wrong = failed(a)
                    ctx.check(wrong is None, key, '%r, %s: %s' % (wire[:k], end, wrong))
                    if not m.close:
                        wrong = failed(b) if k < len(wire) and len(world.socks) == 1 else success(b, Message('', '', 201, 'Next', {'content-length': '3'}, 'xyz'), False)
                        ctx.check(wrong is None, key, '%r, %s, second: %s' % (wire[:k], end, wrong))
                    ctx.check(not mgr.ActiveCount(), key, 'connections are left active')
                    ctx.outcome((m.name, a.status, b.status))


# ------------------------------------------------------------------ requests
def bodies(kind, text):
    return text if kind == 'string' else StringIO.StringIO('junk' + text)


def requests(ctx):
    urls = [('http://a.example/', '/', 'a.example'), ('http://a.example', '/', 'a.example'), ('http://a.example:80/x', '/x', 'a.example'), ('http://a.example:8080/x?y=z', '/x?y=z', 'a.example:8080'),
            ('http://A.example/%41b/c;d?e#f', '/%41b/c;d?e', 'A.example'), ('http://a.example?q', '/?q', 'a.example'), ('http://a.example/?', '/?', 'a.example')]
    texts = ['', 'a', 'hello\r\n\r\nGET / HTTP/1.1\r\n\r\n', '0\r\n\r\n', '\x00\xff\r\n']
    if ctx.thorough:
        texts.append('x' * 20000)
    cases = []
    for method in ('GET', 'HEAD', 'PUT', 'POST', 'DELETE', 'OPTIONS'):
        for u in urls if method == 'GET' else urls[:1]:
            cases.append((method, u, 'string', '', {}))
        if method not in ('GET', 'HEAD'):
            for t in texts:
                for kind in ('string', 'stream'):
                    for hs in ({}, {'Transfer-Encoding': 'chunked'}, {'Content-Length': str(len(t))}, {'X': '1'}):
                        cases.append((method, urls[0], kind, t, hs))
    for method, (u, path, host), kind, text, hs in cases:
        size = 60 + len(text)
        for accept in [None, 1] + [(i,) for i in range(1, size if size < 200 else 60, 1 if ctx.thorough or method == 'PUT' else 7)]:
            if not ctx.mine():
                continue
            ctx.case(['request', method, u, kind, text[:60].encode('string_escape'), hs, accept])
            key = 'request|%s|%s|%s|%s|%s|%s' % (method, u, kind, text[:60].encode('string_escape'), sorted(hs.items()), accept)
            ctx.transitions += 1
            world = World(None, (), accept)
            server = world.server = Server(['HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n', NEXT])
            mgr = Manager(world)
            body = bodies(kind, text)
            CLOCK.limit = 3000 + 4 * len(text)
            if kind == 'stream':
                body.seek(4)
            r = Request(u, method, body)
            for k, v in hs.items():
                r.SetHeader(k, v)
            b = Request(u, 'GET')
            f = go(mgr, r, b)
            if not ctx.check(f is None and not server.problems, key, '%s %s' % (f, server.problems)):
                continue
            wrong = success(r, Message('', '', 200, 'OK', {'content-length': '0'}, ''), False) or success(b, Message('', '', 201, 'Next', {'content-length': '3'}, '' if 0 else 'xyz'), False)
            ctx.check(wrong is None, key, wrong)
            got = [(q[1], q[2], q[3], q[4].get('host'), q[5]) for q in server.requests]
            want = [(method, path, 'HTTP/1.1', host, text), ('GET', path, 'HTTP/1.1', host, '')]
            if not ctx.check(got == want and len(world.socks) == 1, key, 'the server receives %r, not %r' % (got, want)):
                continue
            for k, v in hs.items():
                ctx.check(server.requests[0][4].get(k.lower()) == v, key, 'the header %s is %r' % (k, server.requests[0][4].get(k.lower())))
    CLOCK.limit = 3000
    # a body that is not as long as its header says is not sent as if it were
    for kind, n in itertools.product(('string', 'stream'), (0, 2, 3, 4, 10)):
        if not ctx.mine():
            continue
        ctx.case(['mismatch', kind, n])
        key = 'mismatch|%s|%i' % (kind, n)
        world = World(None)
        server = world.server = Server(lambda sock, m, u, v, hs, b: 'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n')
        mgr = Manager(world)
        r, b = Request('http://a.example/', 'PUT', bodies(kind, 'abc')), get()
        if kind == 'stream':
            r.reqBodyStream.seek(4)
            r.reqBodyStart = 4
        r.SetContentLength(n)
        f = go(mgr, r)
        if not ctx.check(f is None and not server.problems, key, '%s %s' % (f, server.problems)):
            continue
        if n == 3 or kind == 'stream' and n < 3:
            wrong = success(r, Message('', '', 200, 'OK', {'content-length': '0'}, ''), False)
            ctx.check(wrong is None and server.requests[0][5] == 'abc'[:n], key, '%s' % wrong)
        else:
            wrong = failed(r)
            ctx.check(wrong is None and not server.requests, key, '%s %r' % (wrong, server.requests))
        f = go(mgr, b)
        ctx.check(f is None and b.status == 200, key, 'the next request: %s %r' % (f, b.status))


# ------------------------------------------------------------------ the server answers early, or tells the client to continue
def early(ctx):
    """the server says something once it has read k bytes of a request with a body"""
    ok = 'HTTP/1.1 %s\r\nContent-Length: 0\r\n\r\n'
    for kind, chunk, expect, text in itertools.product(('string', 'stream'), (False, True), (False, True), ('', 'hello world')):
        head = 125
        points = range(0, head + len(text)) if ctx.thorough else sorted(set(range(0, head + len(text), 25) + range(60, head + len(text), 4)))
        for first, final in itertools.product((None, '100 Continue', '102 Processing'), ('200 OK', '404 No', '417 Failed', '500 X')):
            for k in points + [None]:
                if not ctx.mine():
                    continue
                for accept, closes in itertools.product((None, 1), (False, True)):
                    ctx.case(['early', kind, chunk, expect, text, first, final, k, accept, closes])
                    key = 'early|%s' % '|'.join(map(str, (kind, chunk, expect, text, first, final, k, accept, closes)))
                    ctx.transitions += 1
                    state = {'said': 0, 'done': 0}
                    answer = ok % final if not closes else (ok % final).replace('\r\n', '\r\nConnection: close\r\n', 1)

                    def server(sock, state=state):
                        r = parse_request(sock.sent[sock.parsed:])
                        if isinstance(r, str):
                            state['problem'] = r
                            return sock.say('', 'eof')
                        head = '\r\n\r\n' in sock.sent[sock.parsed:]
                        if sock is state.setdefault('sock', sock) and not sock.parsed:
                            if head and first and state['said'] == 0:
                                state['said'] = 1
                                sock.say('HTTP/1.1 %s\r\n\r\n' % first)
                            if head and state['said'] < 2 and (r or k is not None and len(sock.sent) >= k):
                                state['said'] = 2
                                sock.say(answer, 'eof' if closes else None)
                        while r:
                            if isinstance(r, str):
                                state['problem'] = r
                                return sock.say('', 'eof')
                            sock.parsed += r[5]
                            state['done'] += 1
                            state.setdefault('requests', []).append(r[:5])
                            if sock is not state['sock'] or state['done'] > 1 or state['said'] > 1 and r[0] == 'GET':
                                sock.say(NEXT)
                            r = parse_request(sock.sent[sock.parsed:])
                    world = World(server, (), accept)
                    mgr = Manager(world)
                    body = bodies(kind, text)
                    if kind == 'stream':
                        body.seek(4)
                    r = Request('http://a.example/', 'PUT', body)
                    if chunk:
                        r.SetTransferEncoding('chunked')
                    elif kind == 'stream':
                        r.SetContentLength(len(text))
                    if expect:
                        r.SetExpectContinue()
                    b = get()
                    f = go(mgr, r)
                    if not ctx.check(f is None and 'problem' not in state, key, '%s %s' % (f, state.get('problem'))):
                        continue
                    wrong = None
                    if not r.done or r.finished != 1:
                        wrong = 'done is %r, finished %i times' % (r.done, r.finished)
                    elif state['said'] == 2 and r.status != int(final[:3]):
                        wrong = 'the status is %r, not %s (%s)' % (r.status, final, r.error)
                    ctx.check(wrong is None, key, wrong or '')
                    ctx.outcome((kind, chunk, expect, first, final, r.status, len(world.socks)))
                    f = go(mgr, b)
                    wrong = f or success(b, Message('', '', 201, 'Next', {'content-length': '3'}, 'xyz'), False)
                    ctx.check(wrong is None, key, 'the next request: %s' % wrong)
                    qs = state.get('requests', [])
                    ctx.check('problem' not in state and [q[0] for q in qs][-1:] == ['GET'] and [q[0] for q in qs] in (['PUT', 'GET'], ['GET']) and (len(qs) == 1 or qs[0][4] == text), key,
                              'the server receives %r %s' % (qs, state.get('problem')))
                    if len(qs) == 1:
                        ctx.check(len(world.socks) > 1, key, 'a truncated request is followed by another one')


# ------------------------------------------------------------------ pipelines
def pipelines(ctx):
    n = 4 if ctx.thorough else 3
    for length in range(1, n + 1):
        for methods in itertools.product(('GET', 'HEAD', 'PUT', 'POST'), repeat=length):
            for lazy, accept, framing, hosts in itertools.product((False, True), (None, 1), ('length', 'chunked'), (1, 2)):
                if not ctx.mine():
                    continue
                ctx.case(['pipeline', list(methods), lazy, accept, framing, hosts])
                key = 'pipeline|%s|%s|%s|%s|%s' % (methods, lazy, accept, framing, hosts)
                ctx.transitions += length
                early = []

                def answers(sock, m, u, v, hs, b):
                    # a non-idempotent request is sent once everything before it was answered
                    if m == 'POST' and (sock.waiting or sock.pos < len(sock.out)):
                        early.append(u)
                    text = 'r' + u
                    h = 'HTTP/1.1 200 R%s\r\n' % u
                    if framing == 'length':
                        return h + 'Content-Length: %i\r\n\r\n' % len(text) + ('' if m == 'HEAD' else text)
                    return h + 'Transfer-Encoding: chunked\r\n\r\n' + ('' if m == 'HEAD' else chunked([text[:1], text[1:]]))
                world = World(None, tuple(range(0, 2000, 7)), accept)
                server = world.server = Server(answers, lazy)
                mgr = Manager(world)
                rs = []
                for i, m in enumerate(methods):
                    r = Request('http://%s.example/%i' % ('ab'[i % hosts], i), m, 'body%i' % i if m in ('PUT', 'POST') else '')
                    rs.append(r)
                f = go(mgr, *rs)
                if not ctx.check(f is None and not server.problems, key, '%s %s' % (f, server.problems)):
                    continue
                for i, r in enumerate(rs):
                    want = '' if methods[i] == 'HEAD' else 'r/%i' % i
                    ctx.check(r.done and r.finished == 1 and r.status == 200 and r.response.reason == 'R/%i' % i and r.resBody == want, key,
                              'request %i: done %r (%i times), %r %r %r' % (i, r.done, r.finished, r.status, r.response and r.response.reason, r.resBody))
                for h in 'ab'[:hosts]:
                    got = [(q[1], q[2], q[5]) for q in server.requests if q[0].host == h + '.example']
                    want = [(m, '/%i' % i, 'body%i' % i if m in ('PUT', 'POST') else '') for i, m in enumerate(methods) if 'ab'[i % hosts] == h]
                    ctx.check(got == want, key, '%s receives %r, not %r' % (h, got, want))
                ctx.check(not early, key, 'POST %s is sent before the responses to the requests before it are there' % early)
                ctx.check(len(world.socks) == min(hosts, length) and not mgr.ActiveCount(), key, '%i connections' % len(world.socks))
                ctx.state(tuple([(q[0].host, q[1], q[2]) for q in server.requests]))


# ------------------------------------------------------------------ redirection
def redirects(ctx):
    locations = [('http://a.example/new', 'a.example', '/new'), ('http://b.example/new?x', 'b.example', '/new?x'), ('/new', 'a.example', '/new'), ('new', 'a.example', '/d/new'), ('../new', 'a.example', '/new'), ('?x', 'a.example', '/d/?x'),
                 ('http://a.example:8080/', 'a.example', '/'), ('//b.example/n', 'b.example', '/n'), (' /new ', 'a.example', '/new'), ('http://b.example', 'b.example', '/'), (None, None, None), ('', None, None), ('ftp://b.example/', None, None), ('mailto:x@b.example', None, None), ('http://u:p@b.example/', None, None), ('http:', None, None)]
    for status, method, kind in itertools.product((300, 301, 302, 303, 304, 305, 307), ('GET', 'HEAD', 'POST', 'PUT'), ('string', 'stream')):
        for location, host, path in locations:
            if not ctx.mine():
                continue
            for auto, out, twice in itertools.product((True, False), ('string', 'stream'), (False, True)):
                ctx.case(['redirect', status, method, kind, location, auto, out, twice])
                key = 'redirect|%s' % '|'.join(map(str, (status, method, kind, location, auto, out, twice)))
                ctx.transitions += 1
                body = '' if method in ('GET', 'HEAD') else 'body'
                n = []

                def answers(sock, m, u, v, hs, b):
                    n.append(1)
                    if len(n) == 1 or len(n) == 2 and twice:
                        text = '' if m == 'HEAD' or status == 304 else 'moved'
                        loc = '' if location is None else 'Location: %s\r\n' % (location if len(n) == 1 else 'http://c.example/last')
                        return 'HTTP/1.1 %i Moved\r\n%s%s\r\n%s' % (status, loc, '' if status == 304 else 'Content-Length: 5\r\n', text)
                    return 'HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX: 1\r\n\r\n' + ('' if m == 'HEAD' else 'ok')
                world = World(None)
                server = world.server = Server(answers)
                mgr = Manager(world)
                sink = StringIO.StringIO() if out == 'stream' else None
                r = Request('http://a.example/d/old', method, bodies(kind, body), sink)
                if kind == 'stream':
                    r.reqBodyStream.seek(4)
                    r.reqBodyStart = 4
                    r.SetContentLength(len(body))
                r.autoRedirect = auto
                f = go(mgr, r)
                if not ctx.check(f is None and not server.problems, key, '%s %s' % (f, server.problems)):
                    continue
                got = [(q[1], q[0].host, q[2], q[5]) for q in server.requests]
                first = [(method, 'a.example', '/d/old', body)]
                must = auto and host and status in (301, 302, 303, 307) and method in ('GET', 'HEAD')
                must_not = not auto or not host or status == 304 or status in (302,) and method not in ('GET', 'HEAD')
                again = 'GET' if status == 303 and method not in ('GET', 'HEAD') else method
                rest = [(again, host, path, body if again == method else '')] + ([(again, 'c.example', '/last', body if again == method else '')] if twice else [])
                followed = len(got) > 1
                ctx.check(followed or not must, key, 'the redirection is not followed: %r' % got)
                ctx.check(not followed or not must_not, key, 'the redirection is followed: %r' % got)
                want = first + (rest if followed else [])
                if not ctx.check(got == want, key, 'the servers receive %r, not %r' % (got, want)):
                    continue
                text = sink.getvalue() if sink else r.resBody
                if followed:
                    ok = (r.status, text) == (200, '' if method == 'HEAD' else 'ok') and r.response.headers.get('location') is None
                else:
                    ok = (r.status, text) == (status, '' if method == 'HEAD' or status == 304 else 'moved')
                ctx.check(ok and r.done and r.finished == 1, key, 'the outcome is %r %r, done %r, finished %i times' % (r.status, text, r.done, r.finished))
                ctx.check([q[4].get('host') for q in server.requests[1:2]] in ([], [(host or '') + (':8080' if location and '8080' in location else '')]), key, 'Host: %r' % [q[4].get('host') for q in server.requests])


# ------------------------------------------------------------------ credentials
def b64(u, p):
    return 'Basic ' + (u + ':' + p).encode('base64').strip()


def credentials(ctx):
    challenges = ['Basic realm="R"', 'basic realm="R"', 'Digest realm="R", nonce="x", Basic realm="R"', 'Basic realm="R", Digest realm="S", nonce="x,y"', 'Digest realm="R"', 'Basic realm="S"', 'Basic', None, 'Foo', 'Basic realm=R', 'X a=b,Basic realm="R",Y c="d e"', 'Negotiate YWI=', 'Basic realm="R', 'Foo, Basic realm="R"', 'Basic realm="R", , Z',
                  'Basic realm="S", Basic realm="R"']
    usable = {'Basic realm="S"': False, 'Digest realm="R"': False, None: False, 'Foo': False, 'Basic': False, 'Negotiate YWI=': False, 'Basic realm="R': False}
    creds = [('good', 'http://a.example/', 'R'), ('wrong', 'http://a.example/', 'R'), ('good', 'http://b.example/', 'R'), ('good', 'http://a.example/', None), ('good', 'http://a.example:8080/', 'R'), ('good', 'https://a.example/', 'R')]
    for ch in challenges:
        for combo in [c for k in (0, 1, 2) for c in itertools.product(creds, repeat=k)]:
            if not ctx.mine():
                continue
            for method, kind in (('GET', 'string'), ('PUT', 'string'), ('PUT', 'stream')):
                ctx.case(['credentials', ch, map(list, combo), method, kind])
                key = 'credentials|%s|%s|%s|%s' % (ch, combo, method, kind)
                ctx.transitions += 1

                def answers(sock, m, u, v, hs, b):
                    if u == '/open':
                        return 'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok'
                    if hs.get('authorization') == b64('user', 'good'):
                        return 'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok'
                    return 'HTTP/1.1 401 No\r\n%sContent-Length: 2\r\n\r\nno' % ('' if ch is None else 'WWW-Authenticate: %s\r\n' % ch)
                world = World(None)
                server = world.server = Server(answers)
                mgr = Manager(world)
                for password, space, realm in combo:
                    c = auth.BasicCredentials()
                    c.userid, c.password, c.realm, c.protectionSpace = 'user', password, realm, uri.URIFactory.URI(space).GetCanonicalRoot()
                    mgr.AddCredentials(c)
                body = '' if method == 'GET' else 'body'
                r = Request('http://a.example/d/x', method, bodies(kind, body))
                if kind == 'stream':
                    r.reqBodyStream.seek(4)
                    r.reqBodyStart = 4
                f = go(mgr, r)
                if not ctx.check(f is None and not server.problems, key, '%s %s' % (f, server.problems)):
                    continue
                match = [c for c in combo if c[1] == 'http://a.example/' and (c[2] is None and ch and 'asic' in ch and ch.count('"') % 2 == 0 or c[2] == 'R' and usable.get(ch, True))]
                tried = [c[0] for c in match]
                want = [None] + [b64('user', c) for c in tried]
                got = [q[4].get('authorization') for q in server.requests]
                # in some order, until one is good
                if 'good' in tried:
                    ok = got[:1] == [None] and got[-1] == b64('user', 'good') and got.count(got[-1]) == 1 and got[1:-1].count(b64('user', 'wrong')) == len(got) - 2 <= tried.count('wrong')
                else:
                    ok = got == want
                want = [body] * len(got)
                ctx.check(ok and [q[5] for q in server.requests] == want, key, 'Authorization is %r, for %r: %r' % (got, tried, [q[5] for q in server.requests]))
                ctx.check((r.status, r.resBody) == ((200, 'ok') if 'good' in tried else (401, 'no')) and r.done and r.finished == 1, key, 'the outcome is %r %r, finished %i times' % (r.status, r.resBody, r.finished))
                # credentials that worked are used for what is below their path, and for nothing else
                if 'good' not in tried:
                    continue
                del server.requests[:]
                rs = [Request(u) for u in ('http://a.example/d/x', 'http://a.example/open', 'http://b.example/open', 'http://a.example:8080/open', 'http://a.example', 'http://a.example/d/x/open')]
                f = go(mgr, *rs[:4])
                got = [(q[0].host, q[0].port, q[4].get('authorization')) for q in server.requests]
                ctx.check(f is None and set([g for g in got if g[:2] != ('a.example', 80)]) == set([('b.example', 80, None), ('a.example', 8080, None)]) and got[0][2] == b64('user', 'good'), key, 'later: %s %r' % (f, got))
                f = go(mgr, *rs[4:])
                ctx.check(f is None and rs[4].status == 200 and rs[5].status == 200, key, 'later: %s %r' % (f, [x.status for x in rs]))
    # redirection to somewhere else
    for location, same in (('http://a.example/d/y', True), ('http://b.example/d/y', False), ('http://a.example:8080/d/y', False), ('/d/y', True)):
        if not ctx.mine():
            continue
        ctx.case(['credentials', 'redirect', location])
        world = World(None)

        def answers(sock, m, u, v, hs, b):
            if u == '/d/y':
                return 'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok'
            if 'authorization' in hs:
                return 'HTTP/1.1 302 There\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n' % location
            return 'HTTP/1.1 401 No\r\nWWW-Authenticate: Basic realm="R"\r\nContent-Length: 2\r\n\r\nno'
        server = world.server = Server(answers)
        mgr = Manager(world)
        c = auth.BasicCredentials()
        c.userid, c.password, c.realm, c.protectionSpace = 'user', 'good', 'R', uri.URIFactory.URI('http://a.example/').GetCanonicalRoot()
        mgr.AddCredentials(c)
        r = Request('http://a.example/d/x')
        f = go(mgr, r)
        got = [(q[0].host, q[2], q[4].get('authorization')) for q in server.requests]
        ctx.check(f is None and r.status == 200 and len(got) == 3 and (same or got[2][2] is None), 'credentials|redirect|' + location, '%s %r' % (f, got))
    for space, path, url, want in (('/', '/d/x', '/d/x', True), ('/', '/d/x', '/d/x/y', True), ('/', '/d/', '/d/y', True), ('/', '/d/x', '/d/xy', False), ('/', '/d/x', '/d', False), ('/', '/d/x', '/e', False), ('/', '/d/x', '/d/x?q', True), ('/', '/', '/z', True)):
        c = auth.BasicCredentials()
        c.protectionSpace = uri.URIFactory.URI('http://a.example/').GetCanonicalRoot()
        c.AddSuccessPath(path)
        ctx.check(c.TestURL(uri.URIFactory.URI('http://a.example' + url)) == want and not c.TestURL(uri.URIFactory.URI('http://b.example' + url)), 'credentials|path|%s|%s' % (path, url), 'TestURL is wrong')
    c = auth.Credentials.FromHTTPString(b64('u', 'p:q'))
    ctx.check((c.userid, c.password, str(c)) == ('u', 'p:q', b64('u', 'p:q')), 'credentials|read', '%r' % ((c.userid, c.password),))


# ------------------------------------------------------------------ the pool
def pool(ctx):
    """one thread: all sequences of requests to several hosts, and of cleaning up, with few connections"""
    ops = ['a', 'b', 'c', 'aa', 'ab', 'idle', 'close-a']
    n = 5 if ctx.thorough else 4
    for size in (1, 2, 3):
        for seq in itertools.product(ops, repeat=n):
            if not ctx.mine():
                continue
            ctx.case(['pool', size, list(seq)])
            key = 'pool|%i|%s' % (size, '|'.join(seq))
            world = World(None)
            server = world.server = Server(lambda sock, m, u, v, hs, b: 'HTTP/1.1 200 OK\r\n%sContent-Length: 2\r\n\r\nok' % ('Connection: close\r\n' if u == '/close' else ''))
            mgr = Manager(world, maxConnections=size)
            total = 0
            for op in seq:
                ctx.transitions += 1
                if op == 'idle':
                    CLOCK.now += 20
                    mgr.IdleCleanup(15)
                    ctx.check(not mgr.cIdleList and not mgr.cIdleTargets and not [s for s in world.socks if not s.closed], key, 'idle connections are left after cleaning up')
                    continue
                if op == 'ab' and size == 1:
                    # needs two connections in one thread
                    CLOCK.calls = 0
                    rs = [Request('http://%s.example/' % h) for h in op]
                    mgr.QueueRequest(rs[0])
                    try:
                        mgr.QueueRequest(rs[1], 0)
                        ctx.check(False, key, 'more connections than allowed')
                    except http.RequestManagerBusy:
                        pass
                    f = go(mgr)
                    rs = rs[:1]
                else:
                    rs = [Request('http://%s.example/%s' % (h, 'close' if op == 'close-a' else '')) for h in op.split('-')[-1]]
                    f = go(mgr, *rs)
                total += len(rs)
                ctx.check(f is None and [(r.status, r.resBody, r.finished) for r in rs] == [(200, 'ok', 1)] * len(rs), key, '%s: %s %r' % (op, f, [(r.status, r.resBody) for r in rs]))
                opened = [s for s in world.socks if not s.closed]
                ctx.check(len(opened) <= size and len(mgr.cIdleList) <= size and not mgr.ActiveCount() and not mgr.ThreadActiveCount() and not mgr.cActiveThreads, key, '%i connections are open, %i idle, %i active' % (len(opened), len(mgr.cIdleList), mgr.ActiveCount()))
                ctx.check(sorted([i for t in mgr.cIdleTargets.values() for i in t]) == sorted(mgr.cIdleList), key, 'the idle connections are %r and %r' % (mgr.cIdleTargets, mgr.cIdleList))
            ctx.check(len(server.requests) == total and not server.problems, key, '%i requests arrive, not %i' % (len(server.requests), total))
            ctx.state((size, len(world.socks)))
            CLOCK.calls = 0
            mgr.Close()
            ctx.check(not [s for s in world.socks if not s.closed], key, 'connections are open after Close')
            try:
                mgr.QueueRequest(Request('http://a.example/'))
                ctx.check(False, key, 'a request is accepted after Close')
            except http.ConnectionClosed:
                pass


PARTS = [('r', responses), ('t', truncations), ('q', requests), ('e', early), ('p', pipelines), ('d', redirects), ('c', credentials), ('o', pool)]


def explore(ctx):
    import os
    ctx.case_limit = 60
    for k, part in PARTS:
        if k in os.environ.get('C17_PARTS', 'rtqepdco'):
            part(ctx)
    ctx.mine()


def replay(ctx, case):
    ctx.nshards, ctx.shard, ctx.index = 1, 0, -1
    explore(ctx)
