# -*- coding: utf-8 -*-
"""C06: addresses.  The address the library gives to an entity leads back to it, whatever its key."""
import itertools
import json
import re
import urllib
import traceback
import uuid
import decimal
import xmltree as ET
from xmlesc import saxutils
import mclib
import odfast
from odschema import Model
from c03 import Http, ROOT, ATOM, D, M, jread
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.odata2.server as server
import pyslet.odata2.metadata as metadata
import pyslet.rfc2396 as uri
import pyslet.iso8601 as iso

SPECIAL = u"' ,=()/?#%&+\"$;:@!*~-.\u00e9\u4e00A1[]{}|\\^`<>"
STRINGS = (u'', u"it's", u"''", u"a'b'c", u'50%25', u'%41', u'%C3%A9', u'../x', u'./', u'A(1)/b', u"x',S='y", u'K=1,L=2', u'a,b',
           u'null', u'1', u'$value', u'$links', u"b'/V", u'a\tb', u'caf\u00e9 cr\u00e8me', u'\u4e00\u4e8c', u'http://x/y?z=1&w=2#f', u"A('1')",
           u'a b', u'a+b', u'a%20b', u'a%2Fb', u'a/b', u'a//b', u'/', u'//', u'a/', u'..')

ATOMP = ('<entry xmlns="http://www.w3.org/2005/Atom" xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices" '
         'xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"><content type="application/xml"><m:properties>'
         '<d:K>%i</d:K></m:properties></content>'
         '<link rel="http://schemas.microsoft.com/ado/2007/08/dataservices/related/n%s" href=%s/></entry>')


def tp(y, mo, d, h, mi, s, zone=None):
    t = iso.Time(hour=h, minute=mi, second=s, zDirection=zone[0] if zone else None, zHour=zone[1] if zone else None,
                 zMinute=zone[2] if zone else None)
    return iso.TimePoint(date=iso.Date(century=y // 100, year=y % 100, month=mo, day=d), time=t)


def pools():
    """type -> list of key values"""
    G = [uuid.UUID(int=0), uuid.UUID(int=2 ** 128 - 1), uuid.UUID('b3afeebc-9658-4699-9d9c-1df551fd6814')]
    D_ = decimal.Decimal
    return [
        ('Int32', [0, 1, -1, 2147483647, -2147483648]), ('Int64', [0L, -1L, 2 ** 63 - 1, -2 ** 63]),
        ('Int16', [0, -32768, 32767]), ('Byte', [0, 255]), ('SByte', [0, -128, 127]),
        ('Boolean', [True, False]), ('Guid', G),
        ('Decimal', [D_('0'), D_('-1.5'), D_('0.1'), D_('12345678901234567890.12345')]),
        ('Double', [0.0, -1.5, 0.1, 1e22, 1.2345678901234567e-5, 1e-300]),
        ('Single', [0.0, -1.5, 1.25e20, 0.125]),
        ('DateTime', [tp(2013, 8, 30, 18, 49, 0), tp(1999, 12, 31, 23, 59, 59), tp(2013, 8, 30, 18, 49, 0.5)]),
        ('Time', [iso.Time(hour=0, minute=0, second=0), iso.Time(hour=23, minute=59, second=59), iso.Time(hour=1, minute=2, second=3.5)]),
        ('DateTimeOffset', [tp(2013, 8, 30, 18, 49, 0, (1, 1, 30)), tp(2013, 8, 30, 18, 49, 0, (-1, 5, 0)), tp(2013, 1, 1, 0, 0, 0, (0, 0, 0))]),
        ('Binary', ['', '\x00', '\xff\xfeab'])]


def make():
    sets, assocs = {'P': '<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>'}, []
    V = '<Property Name="V" Type="Edm.String" Nullable="true"/>'

    def key(*props):
        return '<Key>%s</Key>' % ''.join(['<PropertyRef Name="%s"/>' % n for n, t in props]) + ''.join(
            ['<Property Name="%s" Type="Edm.%s" Nullable="false"/>' % p for p in props]) + V
    sets['S'] = key(('K', 'String'))
    sets['SS'] = key(('K', 'String'), ('L', 'String'))
    sets['SI'] = key(('b', 'String'), ('a', 'Int32'), ('c', 'Boolean'))
    for t, vals in pools():
        sets['K' + t] = key(('K', t))
    for s in sorted(sets):
        if s != 'P':
            assocs.append((('P', 2, 'n' + s), (s, 2, 'p')))
    return Model(sets, assocs)


class World(object):

    def __init__(self):
        doc = make().load(metadata.Document)
        self.container = doc.root.DataServices['M.C']
        self.store = memds.InMemoryEntityContainer(self.container)
        self.server = server.Server(ROOT)
        self.server.SetModel(doc)
        self.http = Http2(self.server)
        with self.container['P'].OpenCollection() as coll:
            p = coll.NewEntity()
            p['K'].SetFromValue(1)
            coll.InsertEntity(p)
        self.n = 1

    def call(self, method, url, body=None, fmt='json', query='', ctype=None):
        """A request for an absolute address, as a WSGI server passes it on"""
        assert isinstance(url, str) or isinstance(url, unicode)
        url = url.encode('ascii')
        assert url.startswith(ROOT), 'address %s' % url
        path, q, rest = url[len(ROOT):].partition('?')
        assert '#' not in url, 'address with a fragment: %s' % url
        assert re.match(r"^(?:[A-Za-z0-9\-._~!$&'()*+,;=:@/?]|%[0-9A-Fa-f]{2})*$", url[len(ROOT):]), 'malformed address %s' % url
        if not q:
            rest = ''
        path = urllib.unquote(path)
        env = {}
        if query or rest:
            env['QUERY_STRING'] = rest + ('&' if rest and query else '') + query
        return self.http.request(method, path, body, ctype or ('application/json' if body else None),
                                 {'json': 'application/json', 'atom': 'application/atom+xml'}.get(fmt), env)


class Http2(Http):
    """Leaves question marks in the path"""

    def request(self, method, path, body=None, ctype=None, accept=None, headers={}):
        env = dict(headers)
        env['PATH_INFO'] = '/svc/' + path
        return Http.request(self, method, 'x', body, ctype, accept, env)


def insert(w, s, key, v):
    with w.container[s].OpenCollection() as coll:
        e = coll.NewEntity()
        for n, x in zip([p.name for p in w.container[s].entityType.Key.PropertyRef],
                        key if isinstance(key, tuple) else (key,)):
            e[n].SetFromValue(x)
        e['V'].SetFromValue(v)
        coll.InsertEntity(e)
    return e


def entity(w, ctx, s, key, tag):
    """All the ways in which the entity with this key is addressed"""
    what = '%s %r' % (s, key)
    v = u'value %i' % tag
    e = insert(w, s, key, v)
    loc = str(e.GetLocation())
    ctx.state(loc)
    # the library's own reading of the address
    got = w.server.GetResourceFromURI(uri.URIFactory.URI(loc))
    ctx.check(isinstance(got, edm.Entity) and got['V'].value == v, 'resource:' + what, '%s is read as %r' % (loc, got))
    o = core.ODataURI(loc, '/svc')
    ctx.check(len(o.navPath) == 1 and o.navPath[0][0] == s and w.container[s].GetKey(o.navPath[0][1]) == e.Key(),
              'parsed:' + what, '%s has the path %r' % (loc, o.navPath))
    # GET in both formats, and the addresses that are inside the responses
    code, h, data = w.call('GET', loc)
    ctx.transitions += 1
    if not ctx.check(code == 200, 'get:' + what, 'GET %s: %i %s' % (loc, code, data)):
        return
    j = jread(data)
    ctx.check(j['V'] == v, 'get:' + what, 'GET %s shows %s' % (loc, j))
    again = j['__metadata']['uri']
    code, h, data = w.call('GET', again)
    ctx.check(code == 200 and jread(data)['V'] == v, 'uri:' + what, '__metadata.uri %s: %i %s' % (again, code, data))
    nav = j['p']['__deferred']['uri']
    code, h, data = w.call('GET', nav)
    ctx.check(code == 200 and jread(data).get('results') == [], 'deferred:' + what, 'deferred uri %s: %i %s' % (nav, code, data))
    code, h, data = w.call('GET', loc, fmt='atom')
    if ctx.check(code == 200, 'atom:' + what, 'GET %s in Atom: %i' % (loc, code)):
        x = ET.fromstring(data)
        ids = [x.find(ATOM + 'id').text]
        ids += [l.get('href') for l in x.findall(ATOM + 'link') if l.get('rel') == 'edit']
        ctx.check(len(ids) == 2, 'atom:' + what, 'id and edit link: %r' % ids)
        for u in ids:
            base = x.get('{http://www.w3.org/XML/1998/namespace}base')
            if not u.startswith('http:'):
                u = (base or ROOT) + u
            code, h, data = w.call('GET', u)
            ctx.check(code == 200 and jread(data)['V'] == v, 'atom:' + what, 'id or edit link %s: %i %s' % (u, code, data))
        ctx.transitions += 3
    # below the entity
    code, h, data = w.call('GET', loc + '/V/$value', fmt=None)
    ctx.check(code == 200 and data == v.encode('utf-8'), 'value:' + what, '%s/V/$value: %i %s' % (loc, code, data))
    code, h, data = w.call('GET', loc + '/$count', fmt=None)
    ctx.check(code == 200 and data == '1', 'count:' + what, '%s/$count: %i %s' % (loc, code, data))
    # linking by address
    p = ROOT + 'P(1)/'
    code, h, data = w.call('POST', p + '$links/n' + s, json.dumps({'uri': loc}))
    ctx.transitions += 4
    if ctx.check(code == 204, 'link:' + what, 'linking %s: %i %s' % (loc, code, data)):
        code, h, data = w.call('GET', p + '$links/n' + s)
        links = [l['uri'] for l in jread(data)['results']] if code == 200 else []
        ctx.check(len(links) == 1, 'links:' + what, 'links: %i %s' % (code, data))
        for l in links:
            code, h, data = w.call('GET', l)
            ctx.check(code == 200 and jread(data)['V'] == v, 'links:' + what, 'link %s: %i %s' % (l, code, data))
        pred = loc[len(ROOT) + len(s):]
        code, h, data = w.call('GET', p + 'n' + s + pred)
        ctx.check(code == 200 and jread(data)['V'] == v, 'nav:' + what, '%s: %i %s' % (p + 'n' + s + pred, code, data))
        code, h, data = w.call('DELETE', p + '$links/n' + s + pred)
        ctx.check(code == 204, 'unlink:' + what, 'DELETE %s$links/n%s%s: %i %s' % (p, s, pred, code, data))
        code, h, data = w.call('GET', p + '$links/n' + s)
        ctx.check(code == 200 and jread(data)['results'] == [], 'unlink:' + what, 'after that: %i %s' % (code, data))
        ctx.transitions += 5
        # the other ways of naming the entity in a request body
        rel = loc[len(ROOT):]
        X = '<uri xmlns="http://schemas.microsoft.com/ado/2007/08/dataservices">%s</uri>'
        for body, ctype in [(json.dumps({'uri': '/svc/' + rel}), None), (json.dumps({'uri': rel}), None),
                            (X % saxutils.escape(loc), 'application/xml'), (X % saxutils.escape(rel), 'application/xml')]:
            code, h, data = w.call('POST', p + '$links/n' + s, body, ctype=ctype)
            ctx.check(code == 204, 'link:' + what, 'linking with %s: %i %s' % (body, code, data))
            with e['p'].OpenCollection() as coll:
                ctx.check(coll.keys() == [1], 'link:' + what, 'after linking with %s: %r' % (body, coll.keys()))
            code, h, data = w.call('DELETE', p + '$links/n' + s + pred)
            ctx.transitions += 2
        # a new entity linked to it
        w.n += 1
        for href in (loc, '/svc/' + rel, '../svc/' + rel):
            w.n += 1
            j = {'K': w.n, 'n' + s: [{'__metadata': {'uri': href}}]}
            code, h, data = w.call('POST', ROOT + 'P', json.dumps(j))
            ctx.check(code == 201, 'bind:' + what, 'inserting %s: %i %s' % (j, code, data))
            with e['p'].OpenCollection() as coll:
                ctx.check(coll.keys() == [w.n], 'bind:' + what, 'after inserting %s: %r' % (j, coll.keys()))
            w.call('DELETE', ROOT + 'P(%i)' % w.n)
            a = ATOMP % (w.n, s, saxutils.quoteattr(href))
            code, h, data = w.call('POST', ROOT + 'P', a, ctype='application/atom+xml')
            ctx.check(code == 201, 'bind:' + what, 'inserting %s: %i %s' % (a, code, data))
            with e['p'].OpenCollection() as coll:
                ctx.check(coll.keys() == [w.n], 'bind:' + what, 'after inserting %s: %r' % (a, coll.keys()))
            w.call('DELETE', ROOT + 'P(%i)' % w.n)
            ctx.transitions += 4
    # as a value in a filter
    parts = [n.name for n in w.container[s].entityType.Key.PropertyRef]
    text = u' and '.join([u'%s eq %s' % (n, core.ODataURI.FormatLiteral(e[n])) for n in parts
                          if not isinstance(e[n], (edm.TimeValue, edm.DateTimeOffsetValue, edm.BooleanValue, edm.ByteValue,
                                                   edm.SByteValue, edm.Int16Value))])
    if text:
        q = core.ODataURI('/svc/' + s + '?$filter=' + uri.EscapeData(text.encode('utf-8')), '/svc')
        r = q.sysQueryOptions[core.SystemQueryOption.filter].Evaluate(e)
        ctx.check(r.value is True, 'filter:' + what, 'the filter %s gives %r' % (text, r.value))
    ctx.outcome(loc)
    return loc


def group(ctx, s, keys):
    """All of these entities in one store: no address may lead to another one"""
    w = World()
    locs = {}
    for i, key in enumerate(keys):
        try:
            loc = entity(w, ctx, s, key, i)
        except Exception:
            loc = None
            ctx.check(False, 'exception:%s %r' % (s, key), traceback.format_exc())
        if loc is None:
            continue
        ctx.check(loc not in locs, 'same:%s %r' % (s, key), 'two entities have the address %s' % loc)
        locs[loc] = i
    # remove one after the other
    for n, loc in enumerate(sorted(locs)):
        code, h, data = w.call('DELETE', loc)
        ctx.check(code == 204, 'delete:%s %r' % (s, keys[locs[loc]]), 'DELETE %s: %i %s' % (loc, code, data))
        code, h, data = w.call('GET', loc)
        ctx.check(code == 404, 'deleted:%s %r' % (s, keys[locs[loc]]), 'GET %s after DELETE: %i' % (loc, code))
        ctx.transitions += 2
    with w.container[s].OpenCollection() as coll:
        left = len(coll)
    ctx.check(left == len(keys) - len(locs), 'left:%s' % s, '%i entities are left' % left)


def groups(thorough):
    one = [c for c in SPECIAL]
    for i in range(0, len(one), 8):
        yield 'S', [u''] + one[i:i + 8]
    yield 'S', list(STRINGS[:18])
    yield 'S', list(STRINGS[18:])
    two = [a + b for a in one for b in one]
    if not thorough:
        few = u"' ,=(/?%+\u00e9A"
        two = [a + b for a in few for b in few]
    for i in range(0, len(two), 16):
        yield 'S', two[i:i + 16]
    if thorough:
        three = [u''.join(t) for t in itertools.product(u"',=)/%A", repeat=3)]
        for i in range(0, len(three), 16):
            yield 'S', three[i:i + 16]
    pairs = [(a, b) for a in u"',=/A" for b in u"',=(%"] + [(u"x',L='y", u'z'), (u'x', u"y',K='z"), (u'', u''), (u'a', u'')]
    for i in range(0, len(pairs), 10):
        yield 'SS', pairs[i:i + 10]
    triple = [(a, b, c) for a in (u"'", u'=1,c', u'/') for b in (0, -1, 7) for c in (True, False)]
    for i in range(0, len(triple), 9):
        yield 'SI', triple[i:i + 9]
    for t, vals in pools():
        yield 'K' + t, list(vals)


def explore(ctx):
    n = 0
    for i, (s, keys) in enumerate(groups(ctx.thorough)):
        n += len(keys)
        if ctx.mine():
            ctx.run({'group': i, 'thorough': ctx.thorough}, group, ctx, s, keys)
    ctx.bounds['entity keys'] = n
    ctx.bounds['key types'] = 17


def replay(ctx, case):
    s, keys = next(itertools.islice(groups(case['thorough']), case['group'], None))
    group(ctx, s, keys)
