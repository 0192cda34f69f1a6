"""C20: what the OData client says and does, through every operation of its collections, against the reference model of C01."""
import os
import urllib
import traceback
import types
import StringIO
import mclib
import odfast
import c01
import c04
from c01 import Ref, Fail, ONE, MANY, ZERO, describe
from odschema import Model, SIMPLE, fingerprint
import pyslet.odata2.csdl as edm
import pyslet.odata2.core as core
import pyslet.odata2.memds as memds
import pyslet.odata2.server as server
import pyslet.odata2.metadata as metadata
import pyslet.odata2.client as client
import pyslet.rfc2616 as http

ROOT = 'http://host/svc/'
PARTS = os.environ.get('C20_PARTS', 'hqm')


class Transport(http.HTTPRequestManager):
    """Passes the requests to a WSGI application and the responses back, without a network."""
    app = None
    count = 0

    def QueueRequest(self, request, timeout=60):
        Transport.count += 1
        request.SetManager(self)
        request.ReadRequestHeader()
        body = []
        while True:
            data = request.ReadRequestBody()
            if not data:
                break
            body.append(data)
        body = ''.join(body)
        path, q, query = request.url.partition('?')
        env = {'REQUEST_METHOD': request.method, 'SCRIPT_NAME': '', 'PATH_INFO': urllib.unquote(path), 'SERVER_NAME': 'host',
               'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
               'wsgi.input': StringIO.StringIO(body), 'wsgi.errors': StringIO.StringIO(),
               'wsgi.multithread': False, 'wsgi.multiprocess': False, 'wsgi.run_once': False, 'QUERY_STRING': query}
        for name in request.GetHeaderList():
            value = request.GetHeader(name)
            name = name.upper().replace('-', '_')
            env[name if name in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + name] = value
        out = []

        def start_response(status, headers, exc_info=None):
            out.append((status, headers))
        data = ''.join(self.app(env, start_response))
        status, headers = out[0]
        assert status[0] != '5', '%s %s: %s %s' % (request.method, request.url, status, data)
        response = http.HTTPResponse(request)
        response.StartWaiting()
        response.RecvLine('HTTP/1.1 %s\r\n' % status)
        for name, value in headers:
            response.RecvLine('%s: %s\r\n' % (name, value))
        response.RecvLine('\r\n')
        if request.method == 'HEAD':
            data = ''
        if data:
            response.RecvBytes(data)
        if not request.done:
            response.ServerDisconnect(None)
        assert request.done, 'the request was not finished'


class Client(client.Client, Transport):
    pass


class Pair(object):
    """A server with its model and a client that has read the model from it."""

    def __init__(self, model):
        self.model = model
        self.doc = model.load(metadata.Document)
        self.server = server.Server(ROOT)
        self.container = memds.InMemoryEntityContainer(self.doc.root.DataServices['M.C'])
        self.server.SetModel(self.doc)
        Transport.app = self.server
        self.client = Client(ROOT)

    def fresh(self):
        Transport.app = self.server
        self.container = memds.InMemoryEntityContainer(self.doc.root.DataServices['M.C'])
        return self.container


class CRef(Ref):
    """Where the client differs from the API, as its documentation says: an entity is inserted
    through a navigation property in two steps unless it needs the link, and can't be inserted at
    the other end of a one-to-one association that leads only one way."""

    def copy(self):
        r = CRef(self.model)
        r.sets = dict((s, dict(d)) for s, d in self.sets.items())
        r.links = [set(l) for l in self.links]
        return r

    def do_navins(self, i, side, k, t):
        ends = self.model.assocs[i]
        self.source(i, side, k)
        if ends[side][1] == ONE:
            if ends[1 - side][2] is None and ends[1 - side][1] != MANY:
                raise Fail
            Ref.do_navins(self, i, side, k, t)
        else:
            self.insert(ends[1 - side][0], t, 'a', [])
            self.keep = self.copy()
            self.link(i, side, k, t)

    def apply(self, op):
        r = self.copy()
        try:
            getattr(r, 'do_' + op[0])(*op[1:])
        except Fail:
            if getattr(r, 'keep', None):
                self.become(r.keep)
            return False
        self.become(r)
        return True


class CImpl(c01.Impl):

    def __init__(self, model, pair):
        self.model = model
        self.pair = pair
        self.container = pair.fresh()
        self.ds = pair.client.model.DataServices

    def look(self):
        """the service behind the client"""
        impl = c01.Impl.__new__(c01.Impl)
        impl.model, impl.container, impl.ds = self.model, self.container, self.pair.doc.root.DataServices
        return impl

    def do_navins(self, i, side, k, t):
        try:
            c01.Impl.do_navins(self, i, side, k, t)
        except NotImplementedError:
            raise KeyError

    def open(self, s):
        return self.pair.client.feeds[s].OpenCollection()


class Snapshot(object):
    """Everything reachable from an object except the metadata model, to go back to; names no
    attribute, just as fingerprint."""

    def __init__(self, obj):
        self.saved = []
        seen = set()
        todo = [obj]
        while todo:
            o = todo.pop()
            if id(o) in seen or isinstance(o, (edm.CSDLElement, types.FunctionType, types.MethodType, type)):
                continue
            seen.add(id(o))
            if isinstance(o, dict):
                self.saved.append((o, dict(o)))
                todo.extend(o.keys() + o.values())
            elif isinstance(o, set):
                self.saved.append((o, set(o)))
                todo.extend(o)
            elif isinstance(o, list):
                self.saved.append((o, list(o)))
                todo.extend(o)
            elif isinstance(o, (tuple, frozenset)):
                todo.extend(o)
            elif type(o).__module__.startswith('pyslet') and getattr(o, '__dict__', None) is not None:
                self.saved.append((o.__dict__, dict(o.__dict__)))
                todo.extend(o.__dict__.values())

    def restore(self):
        for o, c in self.saved:
            if isinstance(o, list):
                o[:] = c
            elif o != c:
                o.clear()
                o.update(c)


def build(model, pair, path):
    ref, impl = CRef(model), CImpl(model, pair)
    for o in path:
        ref.apply(o)
        impl.apply(o)
    return ref, impl


def bfs(ctx, cfg, updates, limit):
    name, sets, assocs, keys, rich = cfg
    model = Model(sets, assocs)
    pair = Pair(model)
    # (a new entity has no address yet that it could be linked to itself with)
    ops = [op for op in c01.alphabet(model, keys, rich, updates) if op[0] != 'stale' and not
           (op[0] == 'insbind' and op[3] == op[4] and assocs[op[1]][0][0] == assocs[op[1]][1][0])]
    seen = {}
    ref, impl = build(model, pair, ())
    here = fingerprint(impl.container)
    seen[here] = ref.observe()
    frontier = [((), here, ref, Snapshot(impl.container))]
    depth = 0
    while frontier and depth < limit:
        nxt = []
        for path, here, base, snapshot in frontier:
            dirty = True
            for op in ops:
                ctx.case({'part': 'h', 'config': name, 'path': path, 'op': op})
                ctx.transitions += 1
                if dirty:
                    ctx.traces += 1
                    snapshot.restore()
                    assert fingerprint(impl.container) == here, 'the state was not restored'
                before = base
                ref = before.copy()
                want = ref.apply(op)
                ctx.outcome((name, op[0], want))
                try:
                    problem = c01.attempt(impl, op, want)
                    fp = None
                    if not problem:
                        fp = fingerprint(impl.container)
                        if fp not in seen:
                            problem = c01.compare(ref, impl.look(), op, want)
                            if not problem and (ctx.thorough or not depth):
                                problem = c01.compare(ref, impl, op, want)
                            if not problem:
                                seen[fp] = ref.observe()
                                ctx.state(name + fp)
                                nxt.append((path + (op,), fp, ref, Snapshot(impl.container)))
                        elif seen[fp] != ref.observe():
                            problem = '%s (%s): state is %s, expected %s' % (op, want, seen[fp], ref.observe())
                except (KeyboardInterrupt, SystemExit, mclib.StopExploring):
                    raise
                except:
                    problem = traceback.format_exc()
                if problem:
                    ctx.violation(c01.key_of(name, before, op), 'after %s\n%s' % (list(path), problem))
                dirty = problem or fp != here
        frontier = nxt
        depth += 1


# ---- queries: what a collection yields, whatever its options and however the server splits it

# (expand, select): what must be seen of an entity of A or T; None is everything
SHOW = [(None, None), (None, {'V': None}), (None, {'K': None}), (None, {'*': None}), ({'p': None}, None), ({'p': None}, {'V': None, 'p': None}),
        ({'p': None}, {'V': None}), ({'p': None}, {'p': {'K': None}}), ({'p': {'a': None}}, None), (None, {'p': None})]


def copy_tree(x):
    return None if x is None else dict((k, copy_tree(v)) for k, v in x.items())


class Queries(object):

    def __init__(self, n):
        self.w = c04.World(n)
        Transport.app = self.w.server
        self.w.server.topmax = 10
        self.client = Client(ROOT)
        with self.client.feeds['P'].OpenCollection() as coll:
            self.p = coll[1]

    def open(self, s, nav):
        return self.p[s.lower()].OpenCollection() if nav else self.client.feeds[s].OpenCollection()

    def set(self, coll, filter, order, show):
        expand, select = SHOW[show]
        if show:
            coll.Expand(copy_tree(expand), copy_tree(select))
        if filter:
            coll.Filter(core.CommonExpression.FromString(filter))
        if order:
            coll.OrderBy(core.CommonExpression.OrderByFromString(order))

    def same(self, s, e, row, show):
        """the entity e is what the options show of row"""
        expand, select = SHOW[show]
        assert e.exists and e.Key() == c04.ident(s, row), 'entity %s instead of %s' % (e.Key(), c04.ident(s, row))
        names = ['K', 'V'] + (['S'] if s == 'T' else [])
        keys = [k for k in names if k != 'V']
        for name in names:
            # the keys are always selected
            there = select is None or '*' in select or name in select or name in keys
            assert e.Selected(name) == there, '%s is %sselected' % (name, '' if e.Selected(name) else 'not ')
            assert e[name].value == (row[name] if there else None), '%s is %r' % (name, e[name].value)
        shown = expand and (select is None or 'p' in select)
        if select is None or 'p' in select:
            # (the default also allows to follow a link that is not expanded)
            assert bool(e['p'].isExpanded) == bool(shown), 'p is %sexpanded' % ('' if e['p'].isExpanded else 'not ')
            with e['p'].OpenCollection() as pc:
                got = [x.Key() for x in pc.itervalues()]
                assert got == ([1] if row['K'] != 1 else []), 'p leads to %s' % got
                assert len(pc) == len(got)
                for x in pc.itervalues():
                    deep = shown and expand['p']
                    assert bool(x['a'].isExpanded) == bool(deep), 'a is %sexpanded' % ('' if x['a'].isExpanded else 'not ')

    def query(self, s, nav, filter, order, show, topmax):
        w = self.w
        w.server.topmax = topmax
        rows = w.expected(s, nav, filter, order)
        with self.open(s, nav) as coll:
            self.set(coll, filter, order, show)
            got = list(coll.itervalues())
            assert [e.Key() for e in got] == [c04.ident(s, r) for r in rows], 'yields %s' % [e.Key() for e in got]
            for e, r in zip(got, rows):
                self.same(s, e, r, show)
            assert len(coll) == len(rows), 'len is %i' % len(coll)
            assert coll.keys() == [c04.ident(s, r) for r in rows]
            for r in w.rows[s] + [dict(K=77, S='x')]:
                k = c04.ident(s, r)
                try:
                    e = coll[k]
                except KeyError:
                    e = None
                assert (e is not None) == (r in rows), 'entity %s is %sfound' % (k, '' if e else 'not ')
                if e:
                    self.same(s, e, r, show)
                assert (k in coll) == (r in rows)
        return len(rows)

    def page(self, s, nav, filter, order, show, topmax, top, skip):
        w = self.w
        w.server.topmax = topmax
        rows = w.expected(s, nav, filter, order)
        rest = rows[skip or 0:]
        size = topmax if top is None or top > topmax else top
        with self.open(s, nav) as coll:
            self.set(coll, filter, order, show)
            coll.SetPage(top, skip)
            got = list(coll.iterpage())
            want = rest[:size]
            assert [e.Key() for e in got] == [c04.ident(s, r) for r in want], 'the page has %s' % [e.Key() for e in got]
            for e, r in zip(got, want):
                self.same(s, e, r, show)
            token = coll.NextSkipToken()
            more = top != 0 and size == topmax and top != topmax and len(rest) > size
            assert (token is not None) == bool(more), 'the skip token is %r' % token
            assert [e.Key() for e in coll.iterpage()] == [c04.ident(s, r) for r in want], 'the page is different the second time'
            assert len(coll) == len(rows), 'len is %i' % len(coll)
            if token is not None:
                with self.open(s, nav) as other:
                    self.set(other, filter, order, show)
                    for extra in (None, 1):
                        other.SetPage(top, extra, token)
                        got = [e.Key() for e in other.iterpage()]
                        want = [c04.ident(s, r) for r in rest[size + (extra or 0):2 * size + (extra or 0)]]
                        assert got == want, 'the page of the skip token has %s, not %s' % (got, want)
            if top != 0:
                coll.SetPage(top, skip)
                seen = 0
                for i in range(len(rest) + 2):
                    page = list(coll.iterpage(True))
                    want = rest[seen:seen + size]
                    assert [e.Key() for e in page] == [c04.ident(s, r) for r in want], 'page %i has %s' % (i, [e.Key() for e in page])
                    for e, r in zip(page, want):
                        self.same(s, e, r, show)
                    seen += len(page)
                    if not page:
                        break
                assert seen == len(rest), 'the pages end after %i of %i' % (seen, len(rest))
        return len(rest)


def query_case(ctx, qs, kind, args):
    case = {'part': 'q', 'n': qs.w.n, 'kind': kind, 'args': list(args)}
    ctx.case(case)
    ctx.transitions += 1
    label = '%s of %i: %s' % (kind, qs.w.n, ' '.join(map(str, args)))
    Transport.app = qs.w.server
    try:
        out = getattr(qs, kind)(*args)
    except (KeyboardInterrupt, SystemExit, mclib.StopExploring):
        raise
    except AssertionError, e:
        ctx.violation(label, str(e))
        return
    except Exception:
        ctx.violation(label, traceback.format_exc()[-2000:])
        return
    ctx.state(label)
    ctx.outcome((kind, args[:5], out))


def part_q(ctx):
    for n in ((0, 1, 3, 6) if ctx.thorough else (3,)):
        qs = None
        for s in 'AT':
            for nav in (False, True):
                for filter in sorted(c04.FILTERS):
                    for order in sorted(c04.ORDERS) if ctx.thorough else (None, 'V', 'V desc,K desc'):
                        if not ctx.mine():
                            continue
                        qs = qs or Queries(n)
                        for topmax in (1, 2, 10) if ctx.thorough else (2,):
                            for show in range(len(SHOW)):
                                if not ctx.thorough and order and show not in (0, 5):
                                    continue
                                query_case(ctx, qs, 'query', (s, nav, filter, order, show, topmax))
                            if not ctx.thorough and order == 'V':
                                continue
                            for top in (None, 0, 1, 2, 3, 5) if ctx.thorough else (None, 0, 1, 3):
                                for skip in (None, 0, 1, 2, 5) if ctx.thorough else (None, 1):
                                    for show in ((0, 3, 5) if ctx.thorough else (0,)):
                                        query_case(ctx, qs, 'page', (s, nav, filter, order, show, topmax, top, skip))


# ---- media link entries

STREAMS = {1: None, 2: ('text/plain', ''), 3: ('text/plain;charset=utf-8', 'abc'), 4: ('image/png', ''.join(map(chr, range(256))) * 3)}


class Media(object):

    def __init__(self):
        model = Model({'P': SIMPLE, 'D': SIMPLE}, [(('P', 2, 'one'), ('D', 0, None)), (('P', 2, 'many'), ('D', 2, None))],
                      set_attrs={'D': 'm:HasStream="true"'})
        self.pair = Pair(model)
        c = self.pair.doc.root.DataServices['M.C']
        with c['D'].OpenCollection() as coll:
            for k, stream in sorted(STREAMS.items()):
                e = coll.NewEntity()
                e['K'].SetFromValue(k)
                e['V'].SetFromValue('v%i' % k)
                coll.InsertEntity(e)
                if stream:
                    coll[k].SetStreamFromGenerator(http.MediaType.FromString(stream[0]), iter([stream[1][:2], stream[1][2:]]))
        with c['P'].OpenCollection() as coll:
            for k in STREAMS:
                e = coll.NewEntity()
                e['K'].SetFromValue(k)
                e['one'].BindEntity(k)
                for t in STREAMS:
                    e['many'].BindEntity(t)
                coll.InsertEntity(e)

    def reach(self, how, k):
        feeds = self.pair.client.feeds
        if how in ('key', 'values', 'page'):
            with feeds['D'].OpenCollection() as coll:
                if how == 'key':
                    return coll[k]
                return [e for e in (coll.itervalues() if how == 'values' else coll.iterpage()) if e.Key() == k][0]
        with feeds['P'].OpenCollection() as coll:
            if how.startswith('x'):
                coll.Expand({how[1:]: None})
            p = coll[k]
            how = how.lstrip('x')
            if how == 'one':
                return p['one'].GetEntity()
            with p[how].OpenCollection() as many:
                return many[k]

    def look(self, how, k):
        Transport.app = self.pair.server
        e = self.reach(how, k)
        data = ''.join(e.GetStreamGenerator())
        got = (str(e.GetStreamType()), data, e.GetStreamSize())
        stream = STREAMS[k] or ('application/octet-stream', '')
        assert data == stream[1] and got[2] == len(data), 'the stream is %r, size %s, not %r' % (data, got[2], stream[1])
        assert STREAMS[k] is None or got[0].replace(' ', '') == stream[0], 'the type of the stream is %s' % got[0]


def media_case(ctx, m, how, k):
    label = 'media %s %i' % (how, k)
    ctx.case({'part': 'm', 'how': how, 'k': k})
    ctx.transitions += 1
    try:
        m.look(how, k)
    except AssertionError, e:
        ctx.violation(label, str(e))
    except Exception:
        ctx.violation(label, traceback.format_exc()[-2000:])
    ctx.state(label)
    ctx.outcome((how, k))


def part_m(ctx):
    if not ctx.mine():
        return
    m = Media()
    for how in ('key', 'values', 'page', 'one', 'many', 'xone', 'xmany'):
        for k in sorted(STREAMS):
            media_case(ctx, m, how, k)


def explore(ctx):
    if 'h' in PARTS:
        cfgs = c01.configs(ctx.thorough)
        for i, cfg in enumerate(cfgs):
            # (the associations come in threes: led both ways, forwards only, backwards only)
            deep = ctx.thorough or i % 3 == 0 and i > 26 or i % 6 == 3 * (i // 3 % 2) + i // 3 % 3
            depth = int(os.environ.get('C20_DEPTH', 2 if deep else 1))
            ctx.bounds['depth of ' + cfg[0]] = depth
            if ctx.mine():
                bfs(ctx, cfg, cfg is cfgs[0] or ctx.thorough, depth)
    if 'q' in PARTS:
        part_q(ctx)
    if 'm' in PARTS:
        part_m(ctx)


def replay(ctx, case):
    if case['part'] == 'h':
        cfg = [c for c in c01.configs(True) + c01.configs(False) if c[0] == case['config']][-1]
        pair = Pair(Model(cfg[1], cfg[2]))
        ref, impl = build(pair.model, pair, [tuple(o) for o in case['path']])
        op = tuple(case['op'])
        before = ref.copy()
        want = ref.apply(op)
        try:
            problem = c01.attempt(impl, op, want) or c01.compare(ref, impl.look(), op, want) or c01.compare(ref, impl, op, want)
        except Exception:
            problem = traceback.format_exc()
        if problem:
            ctx.violation(c01.key_of(cfg[0], before, op), problem)
    elif case['part'] == 'q':
        query_case(ctx, Queries(case['n']), case['kind'], case['args'])
    else:
        media_case(ctx, Media(), case['how'], case['k'])
