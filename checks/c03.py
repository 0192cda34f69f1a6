"""C03: histories of HTTP requests to the OData server against the reference model of C01."""
import json
import traceback
import StringIO
import xmltree as ET
import mclib
import odfast
import c01
from c01 import Ref, Fail, ONE, MANY, ZERO, describe
from odschema import Model, SIMPLE, fingerprint
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.odata2.server as server
import pyslet.odata2.metadata as metadata

ROOT = 'http://host/svc/'
ATOM = '{http://www.w3.org/2005/Atom}'
D = '{http://schemas.microsoft.com/ado/2007/08/dataservices}'
M = '{http://schemas.microsoft.com/ado/2007/08/dataservices/metadata}'
REL = 'http://schemas.microsoft.com/ado/2007/08/dataservices/related/'
NS = ('xmlns="http://www.w3.org/2005/Atom" xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices" '
      'xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"')


class Http(object):
    """A WSGI client that checks what every response must obey."""

    def __init__(self, app):
        self.app = app

    def request(self, method, path, body=None, ctype=None, accept=None, headers={}):
        path, q, query = path.partition('?')
        env = {'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': '/svc/' + path, 'SERVER_NAME': 'host',
               'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
               'wsgi.input': StringIO.StringIO(body or ''), 'wsgi.errors': StringIO.StringIO(),
               'wsgi.multithread': False, 'wsgi.multiprocess': False, 'wsgi.run_once': False}
        if q:
            env['QUERY_STRING'] = query
        if body is not None:
            env['CONTENT_LENGTH'] = str(len(body))
        if ctype:
            env['CONTENT_TYPE'] = ctype
        if accept:
            env['HTTP_ACCEPT'] = accept
        env.update(headers)
        out = []

        def start_response(status, headers, exc_info=None):
            out.append((status, headers))
        data = ''.join(self.app(env, start_response))
        what = '%s %s: ' % (method, path)
        assert len(out) == 1, what + 'start_response was called %i times' % len(out)
        status, headers = out[0]
        assert type(status) is str and status[:3].isdigit(), what + 'status %r' % status
        for n, v in headers:
            assert type(n) is str and type(v) is str, what + 'header %r: %r is not a string' % (n, v)
        h = dict((n.lower(), v) for n, v in headers)
        assert len(h) == len(headers), what + 'a header is repeated: %s' % headers
        assert 'content-length' in h and (int(h['content-length']) == len(data) or (method == 'HEAD' and not data)), what + 'Content-Length %s for %i bytes' % (
            h.get('content-length'), len(data))
        code = int(status[:3])
        assert code < 500, what + 'status ' + status + ' ' + data
        if code == 204:
            assert data == ''
        return code, h, data


def jread(data):
    d = json.loads(data)['d']
    return d


def aentry(e):
    """(uri, K, V, {nav: href}) of an Atom entry"""
    props = e.find(ATOM + 'content').find(M + 'properties')

    def val(n):
        p = props.find(D + n)
        if p is None or p.get(M + 'null') == 'true':
            return None
        return p.text or ''
    links = {}
    for l in e.findall(ATOM + 'link'):
        if l.get('rel').startswith(REL):
            links[l.get('rel')[len(REL):]] = l
    return e.find(ATOM + 'id').text, int(val('K')), val('V'), links


def jentry(e):
    return e['__metadata']['uri'], e['K'], e['V'], dict((k, e[k]) for k in e if k not in ('__metadata', 'K', 'V'))


class HImpl(c01.Impl):
    """The operations of C01 as HTTP requests"""

    def __init__(self, model, doc, fmt='json'):
        c01.Impl.__init__(self, model, doc)
        s = server.Server(ROOT)
        s.SetModel(doc)
        self.http = Http(s)
        self.fmt = fmt

    def url(self, s, k):
        return ROOT + '%s(%i)' % (s, k)

    def bind(self, i, side, k, t, nested):
        s, m, name = self.model.assocs[i][side]
        ts, tm, tname = self.model.assocs[i][1 - side]
        many = tm == MANY
        if self.fmt == 'json':
            x = {'__metadata': {'uri': self.url(ts, t)}} if nested is None else {'K': t, 'V': 'a'}
            if nested:
                x.update(nested)
            return {name: [x] if many else x}
        href = self.url(ts, t) if nested is None else '%s(%i)/%s' % (s, k, name)
        inner = ''
        if nested is not None:
            inner = self.entry(t, 'a', nested or '')
            inner = '<m:inline>%s</m:inline>' % ('<feed>%s</feed>' % inner if many else inner)
        return '<link rel="%s%s" href="%s">%s</link>' % (REL, name, href, inner)

    def entry(self, k, v, links):
        return ('<entry><content type="application/xml"><m:properties><d:K>%i</d:K>%s</m:properties></content>%s</entry>'
                % (k, '<d:V m:null="true"/>' if v is None else '<d:V>%s</d:V>' % v, links))

    def body(self, k, v, binds):
        if self.fmt == 'json':
            d = {'K': k, 'V': v}
            for b in binds:
                for n in b:
                    if n in d:
                        d[n] = d[n] + b[n]
                    else:
                        d[n] = b[n]
            return json.dumps(d), 'application/json'
        return ('<?xml version="1.0" encoding="utf-8"?>' +
                self.entry(k, v, ''.join(binds)).replace('<entry>', '<entry %s>' % NS, 1)), 'application/atom+xml'

    def send(self, method, path, body=None, want=(204,), extra=None):
        data, ctype = body or (None, None)
        accept = 'application/json' if self.fmt == 'json' else 'application/atom+xml,application/xml'
        code, h, out = self.http.request(method, path, data, ctype, accept)
        self.last = (code, h, out)
        if 200 <= code < 300:
            assert code in want, '%s %s: status %i' % (method, path, code)
            if code == 201:
                self.created(h, out, *extra)
            return
        assert 400 <= code, 'status %i' % code
        raise KeyError(code)

    def created(self, h, out, s, k, v):
        """the response to an insert names and shows the new entity"""
        assert h.get('location') == self.url(s, k), 'Location is %s' % h.get('location')
        if self.fmt == 'json':
            assert h['content-type'] == 'application/json', h
            got = jentry(jread(out))
        else:
            assert h['content-type'].startswith('application/atom+xml'), h
            got = aentry(ET.fromstring(out))
        assert got[:3] == (self.url(s, k), k, v), 'response to insert: %s' % (got,)

    def do_ins(self, s, k, v):
        self.send('POST', s, self.body(k, v, []), (201,), (s, k, v))

    def post(self, s, k, binds):
        self.send('POST', s, self.body(k, 'a', binds), (201,), (s, k, 'a'))

    def do_insbind(self, i, side, k, t, new):
        self.post(self.model.assocs[i][side][0], k, [self.bind(i, side, k, t, '' if new else None)])

    def do_insbind2(self, i, side, k, t1, new1, t2, new2):
        self.post(self.model.assocs[i][side][0], k, [self.bind(i, side, k, t, '' if new else None)
                                                     for t, new in ((t1, new1), (t2, new2))])

    def do_deep(self, i, side, k, t, j, jside, u):
        nested = self.bind(j, jside, t, u, '')
        self.post(self.model.assocs[i][side][0], k, [self.bind(i, side, k, t, nested)])

    def do_upd(self, s, k, v):
        self.send('PUT', '%s(%i)' % (s, k), self.body(k, v, []))

    def do_updprop(self, s, k, v):
        if self.fmt == 'json':
            b = (json.dumps({'V': v}), 'application/json')
        else:
            b = ('<V xmlns="%s">%s</V>' % (D[1:-1], v), 'application/xml')
        self.send('PUT', '%s(%i)/V' % (s, k), b)

    def do_updval(self, s, k, v):
        self.send('PUT', '%s(%i)/V/$value' % (s, k), (v, 'text/plain;charset=utf-8'))

    def do_null(self, s, k):
        self.send('DELETE', '%s(%i)/V' % (s, k))

    def do_updbind(self, i, side, k, t):
        s = self.model.assocs[i][side][0]
        self.send('PUT', '%s(%i)' % (s, k), self.body(k, 'a', [self.bind(i, side, k, t, None)]))

    def linkbody(self, i, side, t):
        u = self.url(self.model.assocs[i][1 - side][0], t)
        if self.fmt == 'json':
            return json.dumps({'uri': u}), 'application/json'
        return '<uri xmlns="%s">%s</uri>' % (D[1:-1], u), 'application/xml'

    def links(self, i, side, k):
        s, m, name = self.model.assocs[i][side]
        return '%s(%i)/$links/%s' % (s, k, name)

    def do_link(self, i, side, k, t):
        self.send('POST', self.links(i, side, k), self.linkbody(i, side, t))

    def do_replace(self, i, side, k, t):
        self.send('PUT', self.links(i, side, k), self.linkbody(i, side, t))

    def do_unlink(self, i, side, k, t):
        p = self.links(i, side, k)
        if self.model.assocs[i][1 - side][1] == MANY:
            p += '(%i)' % t
        self.send('DELETE', p)

    def do_navins(self, i, side, k, t):
        s, m, name = self.model.assocs[i][side]
        self.send('POST', '%s(%i)/%s' % (s, k, name), self.body(t, 'a', []), (201,),
                  (self.model.assocs[i][1 - side][0], t, 'a'))

    def do_del(self, s, k):
        self.send('DELETE', '%s(%i)' % (s, k))

    # --- what the server shows

    def get(self, path, want=(200,), accept=None):
        accept = accept or ('application/json' if self.fmt == 'json' else 'application/atom+xml,application/xml')
        code, h, out = self.http.request('GET', path, accept=accept)
        assert code in want, 'GET %s: status %i, expected %s\n%s' % (path, code, want, out)
        if code == 200 and self.fmt == 'json' and not accept.startswith('text'):
            return code, jread(out)
        elif code == 200 and not accept.startswith('text'):
            return code, ET.fromstring(out)
        return code, out

    def feed(self, x):
        if self.fmt == 'json':
            return [jentry(e) for e in x['results']]
        return [aentry(e) for e in x.findall(ATOM + 'entry')]

    def one(self, x):
        return jentry(x) if self.fmt == 'json' else aentry(x)

    def look(self, ref, keys):
        """the whole service as HTTP shows it, against the reference"""
        sets, links = ref.observe()
        for s in sorted(sets):
            expected = sorted((self.url(s, k), k, v) for k, v in sets[s].items())
            for q in ('', '()', '?$orderby=K', '?$inlinecount=allpages'):
                code, x = self.get(s + q)
                got = [e[:3] for e in self.feed(x)]
                if q.startswith('?$o'):
                    assert got == sorted(got, key=lambda e: e[1]), 'not in order'
                assert sorted(got) == expected, 'GET %s%s: %s, expected %s' % (s, q, got, expected)
            n = x['__count'] if self.fmt == 'json' else x.find(M + 'count').text
            assert int(n) == len(expected), 'inline count %s for %s' % (n, expected)
            code, n = self.get(s + '/$count', accept='text/plain')
            assert n == str(len(expected)), '%s/$count is %s, expected %i' % (s, n, len(expected))
            for k in keys[s]:
                p = '%s(%i)' % (s, k)
                there = k in sets[s]
                code, x = self.get(p, (200,) if there else (404,))
                self.get(p + '/V', (200,) if there else (404,))
                code2, v = self.get(p + '/V/$value', (200,) if there and sets[s][k] is not None else (404,), 'text/plain')
                if there:
                    got = self.one(x)
                    assert got[:3] == (self.url(s, k), k, sets[s][k]), 'GET %s: %s' % (p, got)
                    if code2 == 200:
                        assert v == sets[s][k]
                else:
                    continue
                for i, ends in enumerate(self.model.assocs):
                    for side in (0, 1):
                        if ends[side][0] != s or not ends[side][2]:
                            continue
                        name = ends[side][2]
                        target = ends[1 - side][0]
                        want = sorted((self.url(target, t), t, sets[target][t]) for t in links[(i, side)][k])
                        np = p + '/' + name
                        lp = p + '/$links/' + name
                        xcode, x = self.get(p + '?$expand=' + name)
                        deep = self.one(x)[3][name]
                        if ends[1 - side][1] == MANY:
                            code, x = self.get(np)
                            got = sorted(e[:3] for e in self.feed(x))
                            assert got == want, 'GET %s: %s, expected %s' % (np, got, want)
                            code, n = self.get(np + '/$count', accept='text/plain')
                            assert n == str(len(want)), '%s/$count is %s' % (np, n)
                            code, x = self.get(lp)
                            if self.fmt == 'json':
                                got = sorted(l['uri'] for l in x['results'])
                                deep = sorted(e[:3] for e in self.feed(deep))
                            else:
                                got = sorted(l.text for l in x.findall(D + 'uri'))
                                inl = deep.find(M + 'inline')
                                f = inl.find(ATOM + 'feed')
                                deep = [] if f is None else sorted(e[:3] for e in self.feed(f))
                            assert got == [w[0] for w in want], 'GET %s: %s, expected %s' % (lp, got, want)
                            for t in keys[target]:
                                tp = np + '(%i)' % t
                                code, x = self.get(tp, (200,) if t in links[(i, side)][k] else (404,))
                                if code == 200:
                                    got = self.one(x)[:3]
                                    assert got == (self.url(target, t), t, sets[target][t]), 'GET %s: %s' % (tp, got)
                        else:
                            code, x = self.get(np, (200,) if want else (404,))
                            if want:
                                got = self.one(x)[:3]
                                assert [got] == want, 'GET %s: %s, expected %s' % (np, got, want)
                            code, x = self.get(lp, (200,) if want else (404,))
                            if want:
                                got = x['uri'] if self.fmt == 'json' else x.text
                                assert got == want[0][0], 'GET %s: %s, expected %s' % (lp, got, want)
                            if self.fmt == 'json':
                                deep = [self.one(deep)[:3]] if deep else []
                            else:
                                f = deep.find(M + 'inline').find(ATOM + 'entry')
                                deep = [] if f is None else [self.one(f)[:3]]
                        assert deep == want, 'GET %s?$expand=%s: %s, expected %s' % (p, name, deep, want)


class HRef(Ref):
    """Where HTTP differs from the API: a single-valued link is created with POST only if
    there is none, replaced with PUT and removed without naming the target."""

    def copy(self):
        r = HRef(self.model)
        r.sets = dict((s, dict(d)) for s, d in self.sets.items())
        r.links = [set(l) for l in self.links]
        return r

    def many(self, i, side):
        return self.model.assocs[i][1 - side][1] == MANY

    def do_link(self, i, side, k, t):
        if not self.many(i, side) and self.targets(i, side, k):
            raise Fail
        Ref.do_link(self, i, side, k, t)

    def do_replace(self, i, side, k, t):
        if self.many(i, side):
            raise Fail
        Ref.do_replace(self, i, side, k, t)

    def do_unlink(self, i, side, k, t):
        if not self.many(i, side):
            self.source(i, side, k)
            for t in self.targets(i, side, k):
                break
            else:
                raise Fail
        Ref.do_unlink(self, i, side, k, t)

    def do_navins(self, i, side, k, t):
        if not self.many(i, side):
            raise Fail
        Ref.do_navins(self, i, side, k, t)

    def do_updprop(self, s, k, v):
        self.do_upd(s, k, v)

    def do_updval(self, s, k, v):
        if self.sets[s].get(k) is None:
            raise Fail
        self.do_upd(s, k, v)

    def do_null(self, s, k):
        self.do_upd(s, k, None)

    def do_updbind(self, i, side, k, t):
        Ref.do_updbind(self, i, side, k, t)
        self.sets[self.model.assocs[i][side][0]][k] = 'a'


def alphabet(model, keys, updates):
    ops = []
    for s in sorted(model.sets):
        for k in keys[s]:
            ops.append(('ins', s, k, 'a'))
            ops.append(('del', s, k))
        if updates and s == 'A':
            for op in ('upd', 'updprop', 'updval'):
                ops.append((op, s, 1, 'b'))
                if updates == 2:
                    ops.append((op, s, 1, ''))
            ops.append(('null', s, 1))
            ops.append(('upd', s, 1, None))
    for i, ends in enumerate(model.assocs):
        for side in (0, 1):
            s, m, name = ends[side]
            if not name:
                continue
            tkeys = keys[ends[1 - side][0]]
            many = ends[1 - side][1] == MANY
            for k in keys[s]:
                for t in tkeys:
                    ops.append(('insbind', i, side, k, t, True))
                    ops.append(('insbind', i, side, k, t, False))
                    ops.append(('link', i, side, k, t))
                    ops.append(('replace', i, side, k, t))
                    ops.append(('navins', i, side, k, t))
                    if many or t == tkeys[0]:
                        ops.append(('unlink', i, side, k, t))
                    if not many:
                        ops.append(('updbind', i, side, k, t))
            if many and len(tkeys) > 1:
                ops.append(('insbind2', i, side, keys[s][0], tkeys[0], True, tkeys[1], False))
                ops.append(('insbind2', i, side, keys[s][0], tkeys[0], True, tkeys[1], True))
            for j, jends in enumerate(model.assocs):
                for jside in (0, 1):
                    if j != i and jends[jside][2] and jends[jside][0] == ends[1 - side][0]:
                        ops.append(('deep', i, side, keys[s][0], tkeys[0], j, jside, keys[jends[1 - jside][0]][0]))
    return ops


def configs(thorough):
    two = dict(A=[1, 2], B=[1, 2])
    small = two if thorough else dict(A=[1], B=[1, 2])
    out = []
    for m0, m1, keys in ((ZERO, MANY, two), (ONE, MANY, small), (MANY, MANY, small), (ZERO, ZERO, small), (ONE, ZERO, small),
                         (ONE, ONE, small), (MANY, ONE, small)):
        out.append(('pair-%i%i' % (m0, m1), dict(A=SIMPLE, B=SIMPLE), [(('A', m0, 'toB'), ('B', m1, 'toA'))], keys))
    out.append(('chain', dict(A=SIMPLE, B=SIMPLE, C=SIMPLE),
                [(('A', ONE, 'toB'), ('B', MANY, 'toA')), (('B', ZERO, 'toC'), ('C', MANY, 'toB'))],
                dict(A=[1], B=[1], C=[1])))
    return out


def build(model, doc, path, fmt):
    """the path is the shortest way to the state, in requests of the same format"""
    ref, impl = HRef(model), HImpl(model, doc, fmt)
    for o in path:
        ref.apply(o)
        impl.apply(o)
    return ref, impl


def step(impl, ref, op):
    want = ref.apply(op)
    try:
        got = impl.apply(op)
        if want != got:
            return '%s: expected to %s (status %s)' % (op, 'succeed' if want else 'be refused', impl.last[0])
        seen = impl.observe()
    except AssertionError, e:
        return '%s: %s' % (op, e)
    if seen != ref.observe():
        return '%s (%s): state is %s, expected %s' % (op, 'done' if want else 'refused', seen, ref.observe())


def look(impl, ref, keys):
    try:
        impl.look(ref, keys)
    except AssertionError, e:
        return 'in %s: %s' % (describe(ref), e)


def explore(ctx):
    cfgs = configs(ctx.thorough)
    limit = 8 if ctx.thorough else 3
    for name, sets, assocs, keys in cfgs:
        model = Model(sets, assocs)
        doc = model.load(metadata.Document)
        ops = alphabet(model, keys, 2 if name == cfgs[0][0] else 1)
        # the reachable states of the reference, by breadth first search
        seen = {describe(HRef(model)): ()}
        frontier = [()]
        states = [()]
        depth = 0
        while frontier and depth < limit:
            nxt = []
            for path in frontier:
                ref = HRef(model)
                for o in path:
                    ref.apply(o)
                for op in ops:
                    r = ref.copy()
                    if r.apply(op) and describe(r) not in seen:
                        seen[describe(r)] = path + (op,)
                        nxt.append(path + (op,))
            states += nxt
            frontier = nxt
            depth += 1
        if frontier:
            ctx.bounds['depth_of_' + name] = limit
        for path in states:
            if not ctx.mine():
                continue
            for fmt in ('json', 'atom'):
                here(ctx, name, model, doc, keys, ops, path, fmt)
        if ctx.shard == 0:
            ctx.bounds['n_states_' + name] = len(states)
            ctx.bounds['n_operations_' + name] = len(ops)
    for p in solo_paths(ctx):
        if ctx.mine():
            for fmt in ('json', 'atom'):
                for op in SOLO_OPS:
                    ctx.run({'config': 'solo', 'path': p, 'op': op, 'fmt': fmt}, solo_one, ctx, p, op, fmt)
    ctx.sample('%s: e.g. POST /svc/A with a deep insert, then DELETE, in JSON and in Atom' % ', '.join(c[0] for c in cfgs))


def here(ctx, name, model, doc, keys, ops, path, fmt):
    ref, impl = build(model, doc, path, fmt)
    before = ref
    ctx.state(name + fmt + describe(ref))
    ctx.traces += 1
    base = fingerprint(impl.container)

    def bad(op, problem):
        ctx.violation('%s %s %s in %s' % (name, fmt, '/'.join([str(x) for x in op]), describe(before)),
                      'after %s\n%s' % (list(path), problem))
    ctx.case({'config': name, 'path': path, 'op': ('look',), 'fmt': fmt})
    try:
        problem = look(impl, ref, keys)
    except (KeyboardInterrupt, SystemExit, mclib.StopExploring):
        raise
    except:
        problem = traceback.format_exc()
    if problem:
        bad(('look',), problem)
    for op in ops:
        ctx.case({'config': name, 'path': path, 'op': op, 'fmt': fmt})
        ctx.transitions += 1
        if impl is None:
            b, impl = build(model, doc, path, fmt)
        ref = before.copy()
        try:
            problem = step(impl, ref, op)
        except (KeyboardInterrupt, SystemExit, mclib.StopExploring):
            raise
        except:
            problem = traceback.format_exc()
        ctx.outcome((name, op[0], impl.last[0]))
        if problem:
            bad(op, problem)
        if problem or fingerprint(impl.container) != base:
            impl = None


# --- media link entries and complex properties

SOLO = c01.SOLO.replace('Name="V" Type="Edm.String" Nullable="true" MaxLength="20"',
                        'Name="V" Type="Edm.String" Nullable="true" MaxLength="20"')
SOLO_OPS = ['post', 'put$value', 'put', 'putN', 'nullN', 'putN$value', 'putC', 'del', 'nullK']


class Media(object):
    """reference: key -> [V, X, Y, N, stream, type]"""

    def __init__(self, fmt):
        self.fmt = fmt
        self.ref = {}
        self.doc = Model({'D': SOLO}, [], extra=c01.CT, set_attrs={'D': 'm:HasStream="true"'}).load(metadata.Document)
        self.container = memds.InMemoryEntityContainer(self.doc.root.DataServices['M.C'])
        s = server.Server(ROOT)
        s.SetModel(self.doc)
        self.http = Http(s)

    def send(self, method, path, body=None, ctype=None):
        accept = 'application/json' if self.fmt == 'json' else 'application/atom+xml,application/xml'
        return self.http.request(method, path, body, ctype, accept)

    def prop(self, name, inner):
        """inner: a JSON value or the content of an element"""
        if self.fmt == 'json':
            return json.dumps({name: inner}), 'application/json'
        return '<%s xmlns="%s">%s</%s>' % (name, D[1:-1], inner, name), 'application/xml'

    def apply(self, op):
        k = 0
        there = k in self.ref
        if op == 'post':
            code, h, out = self.send('POST', 'D', 'one', 'text/plain')
            assert code == 201, 'POST: status %i' % code
            loc = h['location']
            assert loc.startswith(ROOT + 'D(') and loc.endswith(')'), 'Location ' + loc
            n = int(loc[len(ROOT) + 2:-1])
            assert n not in self.ref, 'POST gave the key %i again' % n
            self.ref[n] = [None, None, None, None, 'one', 'text/plain']
            return
        want = 204 if there else 404
        r = self.ref.get(k)
        if op == 'put$value':
            code, h, out = self.send('PUT', 'D(0)/$value', 'two\x00\xff', 'image/x')
            if there:
                r[4:] = ['two\x00\xff', 'image/x']
        elif op == 'put':
            if self.fmt == 'json':
                b = json.dumps({'K': 0, 'V': 'p', 'C': {'X': 'x', 'Y': 3}, 'N': 4}), 'application/json'
            else:
                b = ('<entry %s><content type="text/plain" src="D(0)/$value"/><m:properties><d:K>0</d:K><d:V>p</d:V><d:C><d:X>x</d:X><d:Y>3</d:Y>'
                     '</d:C><d:N>4</d:N></m:properties></entry>' % NS), 'application/atom+xml'
            code, h, out = self.send('PUT', 'D(0)', *b)
            if there:
                r[:4] = ['p', 'x', 3, 4]
        elif op == 'putN':
            code, h, out = self.send('PUT', 'D(0)/N', *self.prop('N', 7))
            if there:
                r[3] = 7
        elif op == 'nullN':
            code, h, out = self.send('DELETE', 'D(0)/N')
            if there:
                r[3] = None
        elif op == 'nullK':
            code, h, out = self.send('DELETE', 'D(0)/K')
            want = 400 if there else 404
        elif op == 'putN$value':
            code, h, out = self.send('PUT', 'D(0)/N/$value', '9', 'text/plain')
            if there and r[3] is not None:
                r[3] = 9
            else:
                want = 404
        elif op == 'putC':
            b = self.prop('C', {'X': 'y', 'Y': None} if self.fmt == 'json' else
                          '<X>y</X><Y m:null="true" xmlns:m="%s"/>' % M[1:-1])
            code, h, out = self.send('PUT', 'D(0)/C', *b)
            if there:
                r[1:3] = ['y', None]
        elif op == 'del':
            code, h, out = self.send('DELETE', 'D(0)')
            self.ref.pop(k, None)
        assert code == want, '%s: status %i, expected %i: %s' % (op, code, want, out)

    def look(self):
        code, h, out = self.send('GET', 'D')
        assert code == 200
        keys = sorted(self.ref)
        for k in set(keys + [0, 1]):
            p = 'D(%i)' % k
            code, h, out = self.send('GET', p)
            assert code == (200 if k in self.ref else 404), 'GET %s: status %i' % (p, code)
            code, h, body = self.http.request('GET', p + '/$value', accept='*/*')
            assert code == (200 if k in self.ref else 404), 'GET %s/$value: status %i' % (p, code)
            if k not in self.ref:
                continue
            r = self.ref[k]
            assert body == r[4], 'stream is %r, expected %r' % (body, r[4])
            assert h['content-type'] == r[5], 'stream type is %s, expected %s' % (h['content-type'], r[5])
            if self.fmt == 'json':
                d = json.loads(out)['d']
                got = [d['V'], d['C']['X'], d['C']['Y'], d['N']]
                assert d['__metadata']['media_src'] == ROOT + p + '/$value' and d['__metadata']['content_type'] == r[5]
            else:
                x = ET.fromstring(out)
                props = x.find(M + 'properties')

                def val(e, n):
                    e = e.find(D + n)
                    return None if e.get(M + 'null') == 'true' else e.text or ''
                c = props.find(D + 'C')
                got = [val(props, 'V'), val(c, 'X'), val(c, 'Y'), val(props, 'N')]
                got[2:] = [None if g is None else int(g) for g in got[2:]]
            assert got == r[:4], 'GET %s: %s, expected %s' % (p, got, r[:4])
            for n, v in (('V', r[0]), ('N', r[3]), ('C/X', r[1]), ('C/Y', r[2])):
                code, h, out = self.send('GET', p + '/' + n)
                assert code == 200, 'GET %s/%s: status %i' % (p, n, code)
                code, h, out = self.http.request('GET', '%s/%s/$value' % (p, n), accept='text/plain')
                assert (code, out if code == 200 else None) == ((404, None) if v is None else (200, str(v))), \
                    'GET %s/%s/$value: %i %s' % (p, n, code, out)


def solo_paths(ctx):
    """every sequence of requests up to the bound"""
    limit = 3 if ctx.thorough else 2
    ctx.bounds['media_history_length'] = limit + 1
    paths = [()]
    level = [()]
    for d in range(limit):
        level = [p + (op,) for p in level for op in SOLO_OPS]
        paths += [p for p in level if p[0] == 'post']
    return paths


def solo_one(ctx, path, op, fmt):
    m = Media(fmt)
    try:
        for o in path:
            m.apply(o)
        m.apply(op)
        m.look()
    except AssertionError, e:
        ctx.violation('media %s %s' % (fmt, '/'.join(path + (op,))), str(e))
    ctx.state('media' + fmt + repr(sorted(m.ref.items())))
    ctx.transitions += 1
    ctx.traces += 1


def replay(ctx, case):
    if case['config'] == 'solo':
        solo_one(ctx, tuple(case['path']), case['op'], case['fmt'])
        return
    for name, sets, assocs, keys in configs(True) + configs(False):
        if name == case['config']:
            model = Model(sets, assocs)
            ops = [tuple(case['op'])]
            if ops == [('look',)]:
                ops = []
            here(ctx, name, model, model.load(metadata.Document), keys, ops, [tuple(o) for o in case['path']], case['fmt'])
            return
