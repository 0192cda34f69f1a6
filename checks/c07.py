# -*- coding: utf-8 -*-
"""C07: any request at all gets a proper answer; a refused one changes nothing; the store only ever
holds legal values."""
import decimal
import itertools
import json
import uuid
import xmltree as ET
from xmlesc import saxutils
import mclib
import odfast
from odschema import EDMX, fingerprint
from c03 import Http, ROOT, ATOM, D, M
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.odata2.server as server
import pyslet.odata2.metadata as metadata
import pyslet.iso8601 as iso
import pyslet.rfc2616 as http

NSA = ('xmlns="http://www.w3.org/2005/Atom" xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices" '
       'xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"')
REL = 'http://schemas.microsoft.com/ado/2007/08/dataservices/related/'
TYPES = ['Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Decimal', 'Double', 'Guid', 'Int16', 'Int32', 'Int64', 'SByte',
         'Single', 'String', 'Time']

TEXT = EDMX % ('''<EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="A" EntityType="M.AT"/><EntitySet Name="B" EntityType="M.BT"/><EntitySet Name="E" EntityType="M.ET"/>
<EntitySet Name="S" EntityType="M.ST"/><EntitySet Name="F" EntityType="M.FT"/>
<AssociationSet Name="AB" Association="M.AB"><End Role="A" EntitySet="A"/><End Role="B" EntitySet="B"/></AssociationSet>
<AssociationSet Name="EF" Association="M.EF"><End Role="E" EntitySet="E"/><End Role="F" EntitySet="F"/></AssociationSet>
<FunctionImport Name="fn" ReturnType="Collection(M.AT)" EntitySet="A" m:HttpMethod="GET"/>
</EntityContainer>
<EntityType Name="AT"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>%s
<Property Name="L" Type="Edm.String" Nullable="true" MaxLength="3"/><Property Name="R" Type="Edm.String" Nullable="false"/>
<Property Name="Cx" Type="M.CT" Nullable="false"/><NavigationProperty Name="bs" Relationship="M.AB" FromRole="A" ToRole="B"/></EntityType>
<ComplexType Name="CT"><Property Name="S" Type="Edm.String" Nullable="true"/><Property Name="D" Type="M.DT" Nullable="false"/></ComplexType>
<ComplexType Name="DT"><Property Name="N" Type="Edm.Int32" Nullable="true"/></ComplexType>
<EntityType Name="BT"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>
<Property Name="V" Type="Edm.String" Nullable="true"/><NavigationProperty Name="a" Relationship="M.AB" FromRole="B" ToRole="A"/></EntityType>
<EntityType Name="ET"><Key><PropertyRef Name="K"/><PropertyRef Name="L"/></Key><Property Name="K" Type="Edm.String" Nullable="false"/>
<Property Name="L" Type="Edm.Int32" Nullable="false"/><Property Name="V" Type="Edm.Int32" Nullable="true" ConcurrencyMode="Fixed"/>
<NavigationProperty Name="f" Relationship="M.EF" FromRole="E" ToRole="F"/></EntityType>
<EntityType Name="FT"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>
<Property Name="T" Type="Edm.String" Nullable="true" m:FC_TargetPath="SyndicationTitle" m:FC_KeepInContent="false"/>
<NavigationProperty Name="e" Relationship="M.EF" FromRole="F" ToRole="E"/></EntityType>
<EntityType Name="ST" m:HasStream="true"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>
<Property Name="V" Type="Edm.String" Nullable="true"/></EntityType>
<Association Name="AB"><End Role="A" Type="M.AT" Multiplicity="0..1"/><End Role="B" Type="M.BT" Multiplicity="*"/></Association>
<Association Name="EF"><End Role="E" Type="M.ET" Multiplicity="0..1"/><End Role="F" Type="M.FT" Multiplicity="1"/></Association>
''' % ''.join(['<Property Name="P%s" Type="Edm.%s" Nullable="true"/>' % (t, t) for t in TYPES]))

GUID = uuid.UUID('b3afeebc-9658-4699-9d9c-1df551fd6814')
TP = iso.TimePoint.FromString('2013-08-30T18:49:00')
VALUES = {'Binary': 'ab\x00', 'Boolean': True, 'Byte': 7, 'DateTime': TP, 'DateTimeOffset': iso.TimePoint.FromString('2013-08-30T18:49:00+01:00'),
          'Decimal': decimal.Decimal('1.5'), 'Double': 2.5, 'Guid': GUID, 'Int16': -3, 'Int32': 42, 'Int64': 1L << 40, 'SByte': -7,
          'Single': 0.5, 'String': u'caf\u00e9', 'Time': iso.Time(hour=1, minute=2, second=3)}
JVALUES = {'Binary': 'YWIA', 'Boolean': True, 'Byte': 7, 'DateTime': '/Date(1377888540000)/', 'DateTimeOffset': '/Date(1377888540000+0060)/',
           'Decimal': '1.5', 'Double': '2.5', 'Guid': str(GUID), 'Int16': -3, 'Int32': 42, 'Int64': '1099511627776', 'SByte': -7,
           'Single': '0.5', 'String': u'caf\u00e9', 'Time': '01:02:03'}
XVALUES = {'Binary': '616200', 'Boolean': 'true', 'Byte': '7', 'DateTime': '2013-08-30T18:49:00', 'DateTimeOffset': '2013-08-30T18:49:00+01:00',
           'Decimal': '1.5', 'Double': '2.5', 'Guid': str(GUID), 'Int16': '-3', 'Int32': '42', 'Int64': '1099511627776', 'SByte': '-7',
           'Single': '0.5', 'String': u'caf\u00e9', 'Time': '01:02:03'}
PY = {'Binary': (str,), 'Boolean': (bool,), 'Byte': (int, long), 'DateTime': (iso.TimePoint,), 'DateTimeOffset': (iso.TimePoint,),
      'Decimal': (decimal.Decimal,), 'Double': (float,), 'Guid': (uuid.UUID,), 'Int16': (int, long), 'Int32': (int, long),
      'Int64': (int, long), 'SByte': (int, long), 'Single': (float,), 'String': (unicode,), 'Time': (iso.Time,)}
RANGE = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-32768, 32767), 'Int32': (-2 ** 31, 2 ** 31 - 1), 'Int64': (-2 ** 63, 2 ** 63 - 1)}


def observe(container):
    """All that can be read from the store"""
    result = []

    def value(v):
        if isinstance(v, edm.Complex):
            return [value(x) for k, x in v.iteritems()]
        return repr(v.value) if isinstance(v.value, str) else type(v.value).__name__ + unicode(v.value)

    for s in 'ABEFS':
        with container[s].OpenCollection() as coll:
            for key in sorted(coll.keys()):
                e = coll[key]
                x = [s, key, [value(v) for k, v in e.DataItems()]]
                for n in sorted(e.NavigationKeys()):
                    with e[n].OpenCollection() as nav:
                        x.append((n, sorted(nav.keys())))
                if s == 'S':
                    x.append((str(e.GetStreamType()), ''.join(e.GetStreamGenerator())))
                result.append(x)
    return result


class World(object):

    def __init__(self):
        self.doc = metadata.Document()
        self.doc.Read(src=TEXT)
        self.container = self.doc.root.DataServices['M.C']
        self.server = server.Server(ROOT)
        self.server.SetModel(self.doc)
        self.http = Http(self.server)
        self.reset()

    def reset(self):
        self.store = memds.InMemoryEntityContainer(self.container)
        c = self.container
        with c['A'].OpenCollection() as coll:
            e = coll.NewEntity()
            e['K'].SetFromValue(1)
            for t in TYPES:
                e['P' + t].SetFromValue(VALUES[t])
            e['R'].SetFromValue(u'r')
            e['L'].SetFromValue(u'abc')
            e['Cx']['S'].SetFromValue(u's')
            e['Cx']['D']['N'].SetFromValue(5)
            coll.InsertEntity(e)
            a1 = e
            e = coll.NewEntity()
            e['K'].SetFromValue(2)
            e['R'].SetFromValue(u'')
            coll.InsertEntity(e)
        with c['B'].OpenCollection() as coll:
            for k in (1, 2, 3):
                e = coll.NewEntity()
                e['K'].SetFromValue(k)
                e['V'].SetFromValue(u'b%i' % k)
                coll.InsertEntity(e)
                if k < 3:
                    with a1['bs'].OpenCollection() as n:
                        n[k] = e
        with c['F'].OpenCollection() as coll:
            for k in (1, 2):
                f = coll.NewEntity()
                f['K'].SetFromValue(k)
                f['T'].SetFromValue(u't%i' % k)
                coll.InsertEntity(f)
                if k == 1:
                    with c['E'].OpenCollection() as ecoll:
                        e = ecoll.NewEntity()
                        e['K'].SetFromValue(u"x'y")
                        e['L'].SetFromValue(1)
                        e['V'].SetFromValue(3)
                        e['f'].BindEntity(f)
                        ecoll.InsertEntity(e)
        with c['S'].OpenCollection() as coll:
            e = coll.NewEntity()
            e['K'].SetFromValue(1)
            coll.InsertEntity(e)
            e.SetStreamFromGenerator(http.MediaType.FromString('text/x-abc'), ['hello'])
        self.fp = fingerprint(self.store)
        self.seen = observe(self.container)
        self.dirty = False

    def legal(self):
        """every stored value is a legal value of the declared type; links lead to entities"""
        for s in 'ABEFS':
            es = self.container[s]
            with es.OpenCollection() as coll:
                for key in coll.keys():
                    e = coll[key]
                    assert e.Key() == key, 'entity %r of %s has key %r' % (key, s, e.Key())
                    self.values(e, es.entityType)
                    for n in e.NavigationKeys():
                        with e[n].OpenCollection() as nav:
                            for t in nav.itervalues():
                                with t.entitySet.OpenCollection() as tc:
                                    assert t.Key() in tc
        with self.container['E'].OpenCollection() as coll:
            for e in coll.itervalues():
                with e['f'].OpenCollection() as nav:
                    assert len(nav) == 1, 'an entity without its mandatory link'

    def values(self, x, td):
        for p in td.Property:
            v = x[p.name]
            if isinstance(v, edm.Complex):
                self.values(v, p.complexType)
                continue
            t = p.type[4:]
            if v.value is None:
                assert p.nullable, '%s is null' % p.name
                continue
            assert isinstance(v.value, PY[t]) and (t == 'Boolean' or not isinstance(v.value, bool)), (
                '%s of type %s has the value %r' % (p.name, t, v.value))
            if t in RANGE:
                assert RANGE[t][0] <= v.value <= RANGE[t][1], '%s of type %s has the value %r' % (p.name, t, v.value)
            if p.maxLength:
                assert len(v.value) <= p.maxLength, '%s of length %i' % (p.name, len(v.value))


def send(w, ctx, key, method, path, body=None, ctype=None, accept=None, env={}):
    """One request against the fresh store"""
    if w.dirty:
        w.reset()
    ctx.transitions += 1
    try:
        code, h, data = w.http.request(method, path, body, ctype, accept, env)
    except Exception, e:
        ctx.violation(key, '%s %s %r %s %s %s: %s' % (method, path, body, ctype, accept, env, mclib.text(e)))
        w.dirty = True
        return None
    what = '%s %s %r %s %s %s: %i %r' % (method, path, body, ctype, accept, env, code, data[:300])
    try:
        changed = fingerprint(w.store) != w.fp
        if changed:
            w.dirty = True
            seen = observe(w.container)
            # the entity sets whose content differs
            changed = set([x[0] for x in seen if x not in w.seen] + [x[0] for x in w.seen if x not in seen])
        if code >= 400:
            assert not changed, 'refused, but the store has changed'
            ct = h.get('content-type', '')
            if ct.startswith('application/json'):
                d = json.loads(data)
                assert isinstance(d['error']['code'], unicode) and isinstance(d['error']['message'], unicode), 'error body'
            elif 'xml' in ct:
                d = ET.fromstring(data)
                assert d.tag == M + 'error' and d.find(M + 'code') is not None and d.find(M + 'message') is not None, 'error body'
            else:
                assert ct.startswith('text/plain'), 'type of error body: %s' % ct
        else:
            if method in ('GET', 'HEAD', 'OPTIONS'):
                assert not changed, '%s has changed the store' % method
            elif changed:
                w.legal()
                for s in sorted(changed):
                    for a in ('application/json', 'application/atom+xml'):
                        c2, h2, d2 = w.http.request('GET', s, accept=a)
                        assert c2 == 200
                        if a[12:] == 'json':
                            json.loads(d2)
                        else:
                            ET.fromstring(d2)
            ct = h.get('content-type', '')
            if data and ct == 'application/json':
                json.loads(data)
            elif data and ct.startswith('application/') and 'xml' in ct:
                ET.fromstring(data)
    except Exception, e:
        w.dirty = True
        ctx.violation(key, what + '\n' + mclib.text(e) + ' ' + type(e).__name__)
    ctx.outcome('%s %s %i' % (method, path, code))
    ctx.state('%s %s %s %s %i' % (method, path, ctype, accept, code))
    return code


# --- templates: (method, path, tree); JSON trees are values, XML trees are (name, attributes, children or text)

def jentry(k, full=True):
    d = {'K': k, 'R': 'x', 'Cx': {'S': 's', 'D': {'N': 1}}}
    if full:
        for t in FTYPES:
            d['P' + t] = JVALUES[t]
        d['L'] = 'ab'
        d['bs'] = [{'__metadata': {'uri': ROOT + 'B(3)'}}, {'K': 9, 'V': 'new'}]
    return d


def xentry(props, links=(), extra=()):
    return ('entry', None, [('content', {'type': 'application/xml'}, [('m:properties', {}, props)])] + [
        ('link', {'rel': REL + n, 'href': h}, inl) for n, h, inl in links] + list(extra))


def axml(k):
    return xentry([('d:K', {'m:type': 'Edm.Int32'}, str(k)), ('d:R', {}, 'x'), ('d:L', {}, 'ab'),
                   ('d:Cx', {'m:type': 'M.CT'}, [('d:S', {}, 's'), ('d:D', {}, [('d:N', {}, '1')])])] +
                  [('d:P' + t, {'m:type': 'Edm.' + t}, XVALUES[t]) for t in FTYPES],
                  [('bs', ROOT + 'B(3)', []), ('bs', 'x', [('m:inline', {}, [('feed', {}, [xentry([('d:K', {}, '9')])[0:1] + (
                      {}, xentry([('d:K', {}, '9')])[2])])])])])


def templates(thorough):
    global FTYPES, THOROUGH
    THOROUGH = thorough
    # every type has its own template, the entry templates need a few only
    FTYPES = TYPES if thorough else ['DateTime', 'Int32', 'String']
    J, X = 'json', 'xml'
    yield 'POST', 'A', J, jentry(7)
    yield 'PUT', 'A(1)', J, jentry(1)
    yield 'PUT', 'A(1)/Cx', J, {'Cx': {'S': 'q', 'D': {'N': 3}}}
    for t in TYPES:
        yield 'PUT', 'A(1)/P' + t, J, {'P' + t: JVALUES[t]}
    yield 'PUT', 'A(1)/R', J, {'R': 'z'}
    yield 'PUT', 'A(1)/L', J, {'L': 'z'}
    yield 'PUT', 'A(1)/Cx/D/N', J, {'N': 12}
    yield 'POST', 'A(1)/$links/bs', J, {'uri': ROOT + 'B(3)'}
    yield 'POST', 'A(1)/bs', J, {'K': 8, 'V': 'v'}
    yield 'PUT', 'B(1)/$links/a', J, {'uri': ROOT + 'A(2)'}
    yield 'PUT', 'B(1)', J, {'K': 1, 'V': 'v', 'a': {'__metadata': {'uri': ROOT + 'A(2)'}}}
    yield 'POST', 'E', J, {'K': 'n', 'L': 2, 'V': 0, 'f': {'__metadata': {'uri': ROOT + 'F(2)'}}}
    yield 'POST', 'E', J, {'K': 'n', 'L': 2, 'V': 0, 'f': {'K': 9, 'T': 'n'}}
    yield 'PUT', "E(K='x''y',L=1)", J, {'K': "x'y", 'L': 1, 'V': 9}
    yield 'PUT', "E(K='x''y',L=1)/$links/f", J, {'uri': ROOT + 'F(2)'}
    yield 'PUT', 'S(1)', J, {'K': 1, 'V': 'v'}
    yield 'POST', 'F', J, {'K': 7, 'T': 'title'}
    yield 'POST', 'A', X, axml(7)
    yield 'PUT', 'A(1)', X, axml(1)
    for t in TYPES:
        yield 'PUT', 'A(1)/P' + t, X, ('P' + t, {'xmlns': D[1:-1], 'xmlns:m': M[1:-1]}, XVALUES[t])
    yield 'PUT', 'A(1)/Cx', X, ('Cx', {'xmlns': D[1:-1]}, [('S', {}, 'q'), ('D', {}, [('N', {}, '4')])])
    yield 'POST', 'A(1)/$links/bs', X, ('uri', {'xmlns': D[1:-1]}, ROOT + 'B(3)')
    yield 'PUT', 'B(1)/$links/a', X, ('uri', {'xmlns': D[1:-1]}, ROOT + 'A(2)')
    yield 'PUT', 'B(1)', X, xentry([('d:K', {}, '1'), ('d:V', {}, 'n')], [('a', 'A(2)', [])])
    yield 'POST', 'E', X, xentry([('d:K', {}, 'n'), ('d:L', {}, '2')], [('f', ROOT + 'F(2)', [])])
    yield 'POST', 'F', X, xentry([('d:K', {}, '7')], [], [('title', {'type': 'text'}, 'tt'), ('id', {}, 'x'), ('updated', {}, '2013-08-30T18:49:00Z')])
    yield 'PUT', 'F(1)', X, xentry([('d:K', {}, '1')], [], [('title', {'type': 'text'}, 'tt')])


JUNK = [None, True, False, 0, -1, 1e100, 2 ** 70, '', 'x', u'\u4e00', [], {}, [None], [{}], {'x': 1}, {'__metadata': None}, {'__metadata': {}},
        {'__metadata': {'uri': None}}, {'__metadata': {'uri': ''}}, {'__metadata': {'uri': ROOT + 'Z(1)'}}, {'__metadata': {'uri': ROOT + 'A(1)'}},
        {'__metadata': {'uri': ROOT + 'B(99)'}}, {'__metadata': {'uri': ROOT + 'B'}}, {'__metadata': {'uri': 'http://other/B(1)'}},
        {'__metadata': {'uri': ROOT + 'B(1)/V'}}, {'__metadata': {'uri': ROOT + '$metadata'}}]
UJUNK = ['B(99)', 'B', 'B()', 'A(1)', 'B(1)/V', '$metadata', '', 'Z', 'B(1)/a', "B('x')", 'B(1', 'B(K=1)', 'B(K=1,L=2)', 'B(1)?$top=1', 'B(3)?$expand=a',
         '\n', 'fn', '$batch', 'B/$count', 'B(3)/$links/a', '%', '%FF', 'B(%33)']


def jmutants(t):
    """every tree with one node replaced, removed or added"""
    for j in JUNK:
        yield j
    if isinstance(t, dict):
        for k in sorted(t):
            for m in jmutants(t[k]):
                d = dict(t)
                d[k] = m
                yield d
            d = dict(t)
            del d[k]
            yield d
            d = dict(t)
            d[k + 'x'] = d.pop(k)
            yield d
        d = dict(t)
        d['zz'] = 1
        yield d
    elif isinstance(t, list):
        for i in range(len(t)):
            for m in jmutants(t[i]):
                yield t[:i] + [m] + t[i + 1:]
            yield t[:i] + t[i + 1:]
            yield t + [t[i]]
    elif isinstance(t, basestring):
        for m in (t + 'x', t[:-1], ' ' + t, t + ' ', t.upper(), '-' + t, t * 3):
            yield m
        if t.startswith('http'):
            for m in UJUNK:
                yield ROOT + m
                yield m
            yield 'http://[/'
            yield 'urn:x'
            yield '//host/svc/B(3)'


XJUNK = ['', 'x', ' ', '1 ', ' 1', '-1', '1.5', '99999999999999999999999', '1e400', 'INF', '-INF', 'NaN', 'null', 'true', 'True', u'\u0663', '0x1', '+1', '--1', '1L', '1M',
         '2013-02-30T00:00:00', '2013-08-30T24:00:00', '2013-08-30T18:49', '2013-08-30', '18:49', '2013-08-30T18:49:00Z', '2013-08-30T18:49:60',
         'PT1H', 'abc', 'abcd', 'A', '0', '1', '256', '128', '-129', '32768', '2147483648', '9223372036854775808', '12:00:00.', '1.', '.5', '-',
         'b3afeebc96584699-9d9c-1df551fd6814', 'b3afeebc-9658-4699-9d9c-1df551fd681', '{b3afeebc-9658-4699-9d9c-1df551fd6814}', u'\u00e9' * 4]


XSHORT = ['', 'x', '1', '-1', '99999999999999999999999', u'\u0663', 'abcd']


def xmutants(t, uri=False):
    name, attrs, kids = t
    attrs = attrs or {}
    for a in sorted(attrs):
        if a.startswith('xmlns'):
            continue
        d = dict(attrs)
        del d[a]
        yield name, d, kids
        for v in ('', 'x', 'Edm.String', 'Edm.Int32', 'text', 'xhtml', 'html') + (tuple(UJUNK) if a == 'href' else ()):
            d = dict(attrs)
            d[a] = v
            yield name, d, kids
    for a, v in (('m:null', 'true'), ('m:null', 'false'), ('m:null', 'x'), ('m:type', 'Edm.Junk'), ('zz', '1')):
        if name.startswith('d:') or a == 'zz' or 'xmlns:m' in attrs:
            d = dict(attrs)
            d[a] = v
            yield name, d, kids
    yield name + 'x', attrs, kids
    if name.startswith('d:'):
        yield 'm:' + name[2:], attrs, kids
        yield name[2:], attrs, kids
    if isinstance(kids, basestring):
        for v in (XJUNK if THOROUGH or name[:2] != 'd:' else XSHORT):
            yield name, attrs, v
        if kids.startswith('http'):
            for v in UJUNK:
                yield name, attrs, v
                yield name, attrs, ROOT + v
        yield name, attrs, [('b', {}, kids)]
        return
    yield name, attrs, []
    yield name, attrs, 'x'
    for i, k in enumerate(kids):
        yield name, attrs, kids[:i] + kids[i + 1:]
        yield name, attrs, kids + [k]
        yield name, attrs, kids[:i] + [('zz', {}, '')] + kids[i:]
        for m in xmutants(k):
            yield name, attrs, kids[:i] + [m] + kids[i + 1:]


def xml(t, top=True):
    name, attrs, kids = t
    if attrs is None:
        attrs = {}
    a = ''.join([' %s=%s' % (k, saxutils.quoteattr(attrs[k])) for k in sorted(attrs)])
    if top and 'xmlns' not in attrs:
        a += ' ' + NSA
    if isinstance(kids, basestring):
        inner = saxutils.escape(kids)
    else:
        inner = ''.join([xml(k, False) for k in kids])
    s = u'<%s%s>%s</%s>' % (name, a, inner, name)
    return s.encode('utf-8') if top else s


def ctypeof(kind, path, method):
    if kind == 'json':
        return 'application/json'
    return 'application/atom+xml' if '$links' not in path and not path.split('/')[-1][:1].isupper() or path.count('/') == 0 else 'application/xml'


# --- the parts

def mutants(ctx, w, i, part, parts, chunk):
    method, path, kind, tree = list(templates(ctx.thorough))[i]
    gen = jmutants(tree) if kind == 'json' else xmutants(tree)
    ct = ctypeof(kind, path, method)
    n = 0
    for m in gen:
        n += 1
        if n % parts != part:
            continue
        body = json.dumps(m) if kind == 'json' else xml(m)
        send(w, ctx, '%s %s %s' % (method, path, body), method, path, body, ct, 'application/json')
    if part == 0:
        body = json.dumps(tree) if kind == 'json' else xml(tree)
        code = send(w, ctx, 'valid: %s %s %s' % (method, path, body), method, path, body, ct, 'application/json')
        ctx.check(code in (201, 204), 'valid: %s %s %s' % (method, path, body), 'a valid request has status %s' % code)
        step = 1 if len(body) < 120 else max(1, len(body) // (60 if not ctx.thorough else 600))
        for cut in range(0, len(body), step):
            send(w, ctx, 'cut:%s %s %s' % (method, path, body[:cut]), method, path, body[:cut], ct)


BODIES = [(None, None), ('', 'application/json'), ('{}', 'application/json'), ('{"K":1}', 'application/json'), ('{"uri":"B(3)"}', 'application/json'),
          ('[]', 'application/json'), ('x', 'text/plain'), ('5', 'text/plain;charset=utf-8'), ('caf\xe9', 'text/plain'), ('\xff\xfe\x00', 'application/octet-stream'),
          ('<a/>', 'application/xml'), ('{"K":1}', None), ('<a/>', None), ('\xff', None), ('{"K":1}', 'application/json;charset=zz'),
          ('{"K":1}', 'application/json;charset=utf-16'), ('<a/>', 'text/xml;charset=zz'), ('x', '///'), ('x', 'image/png'), ('caf\xe9', 'text/plain;charset=zz'),
          ('\xff\xfe', 'text/plain;charset=utf-8'),
          ('<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>', 'application/xml'), ('<a xmlns:b=""/>', 'application/xml')]
PATHS = ['', '$metadata', '$batch', '$zz', 'A', 'A()', 'A(1)', 'A(2)', 'A(9)', "A('x')", 'A(1', 'A(K=1)', 'A(K=1,L=2)', 'A(L=1)', 'A(null)', 'A(1)(1)', 'A/K', 'A(1)/',
         'A//', 'Z', 'Z(1)', 'M.C', 'C.A', 'C', 'fn', 'fn()', 'fn(1)', 'fn/K', 'A(1)/K', 'A(1)/PString', 'A(1)/PBinary', 'A(2)/PString', 'A(1)/R', 'A(1)/Cx', 'A(1)/Cx/S', 'A(1)/Cx/D/N',
         'A(1)/Cx/D/Z', 'A(1)/K/Z', 'A(1)/Z', 'A(1)/K/$value', 'A(1)/PString/$value', 'A(2)/PString/$value', 'A(1)/PBinary/$value', 'A(1)/PDateTime/$value',
         'A(1)/PGuid/$value', 'A(1)/Cx/$value', 'A(1)/Cx/S/$value', 'A(1)/$value', 'A/$value', 'A/$count', 'A(1)/$count', 'A(1)/K/$count', 'A(1)/bs', 'A(1)/bs(1)', 'A(1)/bs(3)', 'A(1)/bs/$count',
         'A(1)/bs(1)/V', 'A(1)/bs(1)/a', 'A(1)/bs(1)/a/K/$value', 'B(3)/a', 'B(3)/a/K', 'B(1)/a', 'B(1)/a(1)', 'A(1)/$links', 'A(1)/$links/bs', 'A(1)/$links/bs(1)', 'A(1)/$links/bs(3)', 'A(1)/$links/K',
         'A(1)/$links/Z', 'A/$links/bs', 'B(1)/$links/a', 'B(3)/$links/a', 'B(1)/$links/a/K', 'A(1)/$links/bs/$count', '$links', '$links/A', "E(K='x''y',L=1)", "E(L=1,K='x''y')", "E(K='x''y')", "E('x')", "E(1,2)",
         "E(K='x''y',L=1)/f", "E(K='x''y',L=1)/$links/f", 'F(1)/e', 'F(1)/$links/e', 'F(2)/$links/e', 'F(1)', 'S', 'S(1)', 'S(1)/$value', 'S(9)/$value', 'S(1)/V/$value', 'S(1)/V', 'A(1)/$metadata', '$metadata/A', '$count', '$value']
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'MERGE', 'PATCH', 'DELETE', 'OPTIONS', 'get', 'X']


def matrix(ctx, w, path):
    for method in METHODS:
        for body, ctype in BODIES:
            if method in ('GET', 'HEAD', 'OPTIONS', 'X', 'get') and body is not None:
                continue
            if method in ('MERGE', 'PATCH') and body not in (None, '{"K":1}', 'x'):
                continue
            key = '%s %s %r %s' % (method, path, body, ctype)
            send(w, ctx, key, method, path, body, ctype)
            if body in (None, '{"K":1}'):
                send(w, ctx, key + ' V1', method, path, body, ctype, None, {'HTTP_DATASERVICEVERSION': '1.0', 'HTTP_MAXDATASERVICEVERSION': '1.0'})
    for accept in ['application/json', 'application/atom+xml', 'application/atomsvc+xml', 'text/plain', 'image/png', '*/*', 'zz', '', 'application/json;q=0', 'text/*;q=0.1,*/*;q=0']:
        for method, body in (('GET', None), ('PUT', '{"K":1,"R":"x"}'), ('POST', '{"K":77,"R":"x","L":3,"f":{"K":7}}')):
            send(w, ctx, '%s %s accept %s' % (method, path, accept), method, path, body, 'application/json' if body else None, accept)


def headers(ctx, w, part, parts):
    tok = ['text', '*', '/', 'json', ';', 'q', '=', '0.5', ',', '"', ' ', '2', '.', '\xff', '(']
    n = 0
    for length in range(0, 3 if not ctx.thorough else 4):
        for t in itertools.product(tok, repeat=length):
            n += 1
            if n % parts != part:
                continue
            v = ''.join(t)
            send(w, ctx, 'Accept: %r' % v, 'GET', 'B(1)/V', accept=v or None, env={'HTTP_ACCEPT': v})
            send(w, ctx, 'Content-Type: %r' % v, 'PUT', 'B(1)/V', '{"V":"x"}', env={'CONTENT_TYPE': v})
            if length < 2 + ctx.thorough:
                for m, p in (('POST', 'S'), ('PUT', 'S(1)/$value'), ('PUT', 'B(1)/V/$value'), ('POST', 'B')):
                    send(w, ctx, '%s %s Content-Type: %r' % (m, p, v), m, p, '{"K":5}', env={'CONTENT_TYPE': v})
                for hh in ('HTTP_DATASERVICEVERSION', 'HTTP_MAXDATASERVICEVERSION', 'HTTP_SLUG', 'HTTP_IF_MATCH', 'HTTP_IF_NONE_MATCH', 'CONTENT_LENGTH'):
                    send(w, ctx, '%s: %r' % (hh, v), 'POST', 'S', 'abc', 'text/plain', env={hh: v})
    if part == 0:
        for v in ('1.0', '2.0', '3.0', '2.1', '1', '2.0;x', '2.0; pyslet', '1.0;', '-1.0', '2.0,3.0', 'x', '', '1.0.0'):
            for v2 in ('1.0', '2.0', '3.0', 'x', ''):
                send(w, ctx, 'versions %r %r' % (v, v2), 'GET', 'A', env={'HTTP_DATASERVICEVERSION': v, 'HTTP_MAXDATASERVICEVERSION': v2})


OPTS = {'$filter': ['true', 'K eq 1', 'K', 'Z eq 1', 'bs', 'Cx', 'Cx/S eq null', "PString eq 'x", '', '1 add', 'PDateTime gt 1', 'PDouble div 0 eq 1', 'K div 0 eq 1', "length(1) eq 1", 'bs/K eq 1',
                    'a/K eq 1', "PDecimal gt 1.5", 'not K', '-PString eq 1', 'PBinary eq 1', "PGuid gt PGuid", "substring(PString,9,9) eq ''", 'year(PTime) eq 1'],
        '$orderby': ['K', 'K desc', 'K,K', 'Z', 'Cx', 'bs', 'PString desc', 'PGuid', 'PBinary', 'PDateTimeOffset', 'PTime', 'PDateTime', 'PBoolean', 'K junk', '', 'K,', "1", 'PInt32 add PString'],
        '$top': ['0', '1', '-1', 'x', '', '1.5', '99999999999999999999', ' 1', '+1', '0x1', u'\u0661'.encode('utf-8')], '$skip': ['0', '1', '-1', 'x', '', '99999999999999999999'],
        '$skiptoken': ['0', '1', 'x', "'x'", '1,2', '', '-1', '1.5', "null", '99999999999999999999'],
        '$expand': ['bs', 'bs/a', 'Z', 'K', 'Cx', 'bs,bs', '', 'bs/Z', 'a', 'f', 'bs,', '/', 'bs//a'], '$select': ['K', '*', 'Z', 'bs', 'bs/K', 'Cx', 'Cx/S', '', 'K,K', 'bs/*', '*,K', ',', 'K,bs/V'],
        '$format': ['json', 'atom', 'xml', 'zz', '', 'application/json', 'text/plain;x', 'a/b;q=x', '*/*'], '$inlinecount': ['allpages', 'none', 'x', ''], '$zz': ['1', ''],
        'zz': ['1', '', "'x"], '': ['', 'x']}


def options(ctx, w, path):
    for n in sorted(OPTS):
        for v in OPTS[n]:
            q = core.uri.EscapeData(v)
            for accept in ('application/json', 'application/atom+xml, application/xml'):
                send(w, ctx, 'GET %s?%s=%s %s' % (path, n, v, accept), 'GET', '%s?%s=%s' % (path, n, q), accept=accept)
    for q in ('$top', '$filter', '&', '$', '=', '$top=1&$top=2', '$select=K&$expand=bs', '$select=bs&$expand=bs', '$select=bs/K&$expand=bs', '$expand=bs&$select=K,bs', '%', '%FF=1', '$filter=%FF', '$top=%31', '%24top=1',
              '$filter=%E4%B8', '$orderby=K%20desc,PString&$skiptoken=1', '$skiptoken=1&$orderby=K', "$orderby=PString&$skiptoken='a',1", '$top=1&$skip=1&$inlinecount=allpages'):
        for accept in ('application/json', 'application/atom+xml, application/xml'):
            send(w, ctx, 'GET %s?%s %s' % (path, q, accept), 'GET', path + '?' + q, accept=accept)


OPATHS = ['A', 'A(1)', 'A(2)', 'A(1)/bs', 'A(1)/bs/$count', 'A/$count', 'A(1)/$links/bs', 'B(1)/$links/a', 'A(1)/K', 'A(1)/Cx', 'A(1)/PString/$value', 'B', 'B(1)/a', 'E', 'S', 'S(1)/$value', '$metadata', 'fn', 'F', '']


def groups(thorough):
    for p in PATHS:
        yield 'matrix', (p,)
    for p in OPATHS:
        yield 'options', (p,)
    for i in range(16):
        yield 'headers', (i, 16)
    for i, t in enumerate(templates(thorough)):
        n = 12 if t[1] in ('A', 'A(1)') else 1
        for j in range(n):
            yield 'mutants', (i, j, n, 0)


_world = []


def run(ctx, part, args):
    if not _world:
        _world.append(World())
    globals()[part](ctx, _world[0], *args)


def explore(ctx):
    count = {}
    for part, args in groups(ctx.thorough):
        count[part] = count.get(part, 0) + 1
        if ctx.mine():
            ctx.run({'part': part, 'args': args}, run, ctx, part, args)
    for p in count:
        ctx.bounds[p + ' groups'] = count[p]
    ctx.bounds['methods x paths x bodies'] = '%i x %i x %i' % (len(METHODS), len(PATHS), len(BODIES))


def replay(ctx, case):
    run(ctx, case['part'], case['args'])
