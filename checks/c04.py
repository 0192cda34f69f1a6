"""C04: paging.  Following the pages of a collection, whatever the query options."""
import json
import re
import urllib
import xmltree as ET
import mclib
import odfast
from odschema import Model
from c03 import Http, ROOT, ATOM, D, M, jread
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.odata2.server as server
import pyslet.odata2.metadata as metadata

VALUES = ['b', 'a', None, 'b', 'a', 'c']
ORDERS = {None: [], 'V': [('V', 1)], 'V desc,K desc': [('V', -1), ('K', -1)], 'K desc': [('K', -1)]}
FILTERS = {None: lambda e: True, "V eq 'b'": lambda e: e['V'] == 'b', "V ne 'a'": lambda e: e['V'] != 'a',
           "V eq 'zz'": lambda e: False, 'K ge 2': lambda e: e['K'] >= 2}


def make():
    sets = {
        'A': '<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>'
             '<Property Name="V" Type="Edm.String" Nullable="true"/>',
        'T': '<Key><PropertyRef Name="S"/><PropertyRef Name="K"/></Key><Property Name="S" Type="Edm.String" Nullable="false"/>'
             '<Property Name="K" Type="Edm.Int32" Nullable="false"/><Property Name="V" Type="Edm.String" Nullable="true"/>',
        'P': '<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>'}
    return Model(sets, [(('P', 2, 'a'), ('A', 2, 'p')), (('P', 2, 't'), ('T', 2, 'p'))])


def string_key(k):
    return u"x'\u00e9" if k % 2 else u'x 1'


class World(object):
    """A data service with n entities in A and in T, all but the first linked from P(1)"""

    def __init__(self, n):
        self.n = n
        doc = make().load(metadata.Document)
        self.doc = doc
        self.container = doc.root.DataServices['M.C']
        self.store = memds.InMemoryEntityContainer(self.container)
        self.server = server.Server(ROOT)
        self.server.SetModel(doc)
        self.http = Http(self.server)
        with self.container['P'].OpenCollection() as coll:
            p = coll.NewEntity()
            p['K'].SetFromValue(1)
            coll.InsertEntity(p)
        self.p = p
        self.rows = {'A': [], 'T': []}
        for k in [3, 0, 5, 2, 4, 1][6 - n:] if n else []:
            for s in 'AT':
                with self.container[s].OpenCollection() as coll:
                    e = coll.NewEntity()
                    e['K'].SetFromValue(k)
                    e['V'].SetFromValue(VALUES[k])
                    row = {'K': k, 'V': VALUES[k]}
                    if s == 'T':
                        row['S'] = string_key(k)
                        e['S'].SetFromValue(row['S'])
                    coll.InsertEntity(e)
                    self.rows[s].append(row)
                    with p[s.lower()].OpenCollection() as links:
                        if k != 1:
                            links[e.Key()] = e

    def expected(self, s, nav, filter, order):
        rows = [r for r in self.rows[s] if FILTERS[filter](r) and not (nav and r['K'] == 1)]
        rows.sort(key=lambda r: (r['S'], r['K']) if s == 'T' else r['K'])
        for name, way in reversed(ORDERS[order]):
            rows.sort(key=lambda r: (r[name] is not None, r[name]), reverse=way < 0)
        return rows

    def open(self, s, nav):
        return self.p[s.lower()].OpenCollection() if nav else self.container[s].OpenCollection()


def ident(s, r):
    return (r['S'], r['K']) if s == 'T' else r['K']


PART = re.compile(ur"^(\w+)=('(?:[^']|'')*'|-?[0-9]+)(?:,|$)")


def canon(u):
    """An entity address as (set, frozenset of key parts): their order and the escaping do not matter"""
    assert u.startswith(ROOT), 'address %s' % u
    u = urllib.unquote(u[len(ROOT):].encode('ascii')).decode('utf-8')
    s, rest = u[:2], u[2:]
    assert s in ('A(', 'T(') and rest.endswith(')'), 'address %s' % u
    rest = rest[:-1]
    if s == 'A(':
        return 'A', rest
    parts = {}
    while rest:
        m = PART.match(rest)
        assert m, 'key predicate in %s' % u
        assert m.group(1) not in parts
        parts[m.group(1)] = m.group(2)
        rest = rest[m.end():]
    return 'T', parts


def uri(s, r):
    if s == 'A':
        return 'A', u'%i' % r['K']
    return 'T', {u'S': u"'" + r['S'].replace("'", "''") + u"'", u'K': u'%i' % r['K']}


def api(w, s, nav, filter, order, topmax, top, skip):
    """pages through the collection interface"""
    rows = w.expected(s, nav, filter, order)
    with w.open(s, nav) as coll:
        if topmax:
            coll.TopMax(topmax)
        if filter:
            coll.Filter(core.CommonExpression.FromString(filter))
        if order:
            coll.OrderBy(core.CommonExpression.OrderByFromString(order))
        total = len(rows)
        size = topmax if topmax and (top is None or top > topmax) else top
        rest = rows[skip or 0:]
        # one page
        coll.SetPage(top, skip)
        got = [e.Key() for e in coll.iterpage()]
        first = [ident(s, r) for r in (rest if size is None else rest[:size])]
        assert got == first, 'first page is %s, not %s' % (got, first)
        token = coll.NextSkipToken()
        more = topmax and top != 0 and size == topmax and top != topmax and len(rest) > size
        assert (token is not None) == bool(more), 'skip token %r with %i of %i entities shown' % (token, len(first), len(rest))
        assert len(coll) == total, 'len is %i, not %i' % (len(coll), total)
        assert [e.Key() for e in coll.iterpage()] == first, 'the first page is different the second time'
        if token is not None:
            # the token on a similar collection
            with w.open(s, nav) as other:
                other.TopMax(topmax)
                if filter:
                    other.Filter(core.CommonExpression.FromString(filter))
                if order:
                    other.OrderBy(core.CommonExpression.OrderByFromString(order))
                other.SetPage(top, None, token)
                got = [e.Key() for e in other.iterpage()]
                want = [ident(s, r) for r in rest[size:2 * size]]
                assert got == want, 'page of the skip token is %s, not %s' % (got, want)
                other.SetPage(top, 1, token)
                got = [e.Key() for e in other.iterpage()]
                want = [ident(s, r) for r in rest[size + 1:2 * size + 1]]
                assert got == want, 'page of the skip token with skip 1 is %s, not %s' % (got, want)
        # all pages
        if top != 0:
            coll.SetPage(top, skip)
            seen = []
            for i in range(len(rest) + 2):
                page = [e.Key() for e in coll.iterpage(True)]
                want = [ident(s, r) for r in (rest[len(seen):] if size is None else rest[len(seen):len(seen) + size])]
                assert page == want, 'page %i is %s, not %s' % (i, page, want)
                seen += page
                if not page:
                    break
            assert len(seen) == len(rest), 'pages end after %s' % seen
        return (len(first), bool(token))


def parse(fmt, out, links):
    """(list of identifying values, next, count)"""
    if fmt == 'json':
        d = jread(out)
        nxt = d.get('__next')
        count = d.get('__count')
        if links:
            rows = [x['uri'] for x in d['results']]
        else:
            rows = [(x['__metadata']['uri'], x) for x in d['results']]
        return rows, nxt and nxt['uri'], count if count is None else int(count)
    x = ET.fromstring(out)
    if links:
        c = x.find(M + 'count')
        return [c.text for c in x.findall(D + 'uri')], None, None
    nxt = [l.get('href') for l in x.findall(ATOM + 'link') if l.get('rel') == 'next']
    assert len(nxt) < 2
    c = x.find(M + 'count')
    rows = []
    for e in x.findall(ATOM + 'entry'):
        props = e.find(ATOM + 'content').find(M + 'properties')
        d = {}
        for p in (list(props) if props is not None else []):
            d[p.tag[len(D):]] = None if p.get(M + 'null') == 'true' else (p.text or '')
        for l in e.findall(ATOM + 'link'):
            i = l.find(M + 'inline')
            if i is not None:
                d['expanded'] = [y.find(ATOM + 'id').text for f in i.findall(ATOM + 'feed') for y in f.findall(ATOM + 'entry')]
        rows.append((e.find(ATOM + 'id').text, d))
    return rows, nxt[0] if nxt else None, None if c is None else int(c.text)


def http(w, fmt, s, nav, links, filter, order, topmax, top, skip, inline, extra):
    rows = w.expected(s, nav or links, filter, order)
    total = len(rows)
    rows = rows[skip or 0:]
    if top is not None:
        rows = rows[:top]
    q = []
    for n, v in (('filter', filter), ('orderby', order), ('top', top), ('skip', skip),
                 ('inlinecount', 'allpages' if inline == 1 else 'none' if inline == 2 else None),
                 ('select', 'V' if extra == 1 else None), ('expand', 'p' if extra == 2 else None)):
        if v is not None:
            q.append('$%s=%s' % (n, urllib.quote(str(v))))
    path = ('P(1)/$links/%s' if links else 'P(1)/%s' if nav else '%s') % (s.lower() if nav or links else s)
    url = ROOT + path + ('?' + '&'.join(q) if q else '')
    w.server.topmax = topmax
    accept = 'application/json' if fmt == 'json' else 'application/xml' if links else 'application/atom+xml'
    seen = 0
    for i in range(len(rows) + 2):
        assert url.startswith(ROOT), 'page %i has the address %s' % (i, url)
        code, h, out = w.http.request('GET', url[len(ROOT):], None, None, accept)
        assert code == 200, 'GET %s: %i %s' % (url, code, out)
        got, nxt, count = parse(fmt, out, links)
        if i == 0 and inline == 1 and (fmt == 'json' or not links):
            assert count is not None, 'no count'
        if inline != 1:
            assert count is None, 'unexpected count'
        assert count is None or count == total, 'count is %s, not %i' % (count, total)
        if not links:
            assert len(got) <= topmax, '%i entities on a page' % len(got)
        want = rows[seen:seen + topmax] if not links else rows[seen:]
        if links:
            got = [canon(g) for g in got]
            assert got == [uri(s, r) for r in want], 'links: %s, not %s' % (got, [uri(s, r) for r in want])
        else:
            got = [(canon(g[0]), g[1]) for g in got]
            assert [g[0] for g in got] == [uri(s, r) for r in want], 'page %i of %s: %s, not %s' % (
                i, path, [g[0] for g in got], [uri(s, r) for r in want])
            for g, r in zip(got, want):
                assert 'V' in g[1] and g[1]['V'] == r['V'], 'V is %r' % g[1].get('V')
                if extra == 1:
                    assert 'K' not in g[1], 'K is not selected on page %i' % i
                if extra == 2:
                    ex = g[1]['expanded'] if fmt != 'json' else [y['__metadata']['uri'] for y in g[1]['p']['results']]
                    assert ex == ([ROOT + 'P(1)'] if r['K'] != 1 else []), 'expanded: %s on page %i' % (ex, i)
        seen += len(got)
        if nxt is None:
            break
        assert seen < len(rows), 'next link after the last entity: %s' % nxt
        url = nxt
    assert seen == len(rows), 'only %i of %i entities' % (seen, len(rows))
    return seen, i


def explore(ctx):
    big = ctx.thorough
    ns = range(0, 7) if big else range(0, 5)
    topmaxes = [None, 1, 2, 3, 4]
    tops = [None, 0, 1, 2, 3, 5] + ([4, 6] if big else [])
    skips = [None, 0, 1, 2, 5]
    filters = sorted(FILTERS)
    orders = sorted(ORDERS)
    ctx.bounds.update(entities=max(ns), topmax=4, top=max(tops), skip=5, filters=len(filters), orders=len(orders))
    for n in ns:
        w = World(n)
        for s in 'AT':
            for nav in (False, True):
                for filter in filters:
                    for order in orders:
                        if not ctx.mine():
                            continue
                        for topmax in topmaxes:
                            for top in tops:
                                for skip in skips:
                                    one(ctx, w, 'api', (s, nav, filter, order, topmax, top, skip))
        for s in 'AT':
            for nav, links in ((0, 0), (1, 0), (0, 1)):
                for filter in ([None] if links else filters if big else [None, "V ne 'a'", 'K ge 2']):
                    for order in ([None] if links else orders if big else [None, 'V', 'V desc,K desc']):
                        for fmt in ('json', 'atom'):
                            if not ctx.mine():
                                continue
                            for topmax in ([1, 2, 3] if big else [1, 2]):
                                for top in (tops if big or n < 3 else [None, 1, 2, 3]):
                                    for skip in (skips if big else [None, 1, 2]):
                                        for inline in (0, 1):
                                            extras = [0]
                                            if not links and n > 1 and (filter is None or big):
                                                extras = [0, 1, 2]
                                            for extra in extras:
                                                one(ctx, w, 'http', (fmt, s, nav, links, filter, order, topmax, top, skip, inline, extra))


def one(ctx, w, kind, args):
    ctx.case([kind, w.n, list(args)])
    try:
        out = (api if kind == 'api' else http)(w, *args)
    except mclib.StopExploring:
        raise
    except AssertionError, e:
        ctx.violation('%s n=%i %s' % (kind, w.n, ' '.join(map(str, args))), str(e))
        return
    except Exception:
        import traceback
        ctx.violation('%s n=%i %s' % (kind, w.n, ' '.join(map(str, args))), traceback.format_exc()[-2000:])
        return
    ctx.transitions += 1
    ctx.state('%s %i %r' % (kind, w.n, args))
    ctx.outcome((kind, args[1:5], out))
    if ctx.evaluations % 2000 == 1:
        ctx.sample('%s with %i entities, %s: %s' % (kind, w.n, args, out))


def replay(ctx, case):
    kind, n, args = case
    one(ctx, World(n), kind, tuple(args))
