# -*- coding: utf-8 -*-
"""C19: OData values and entities survive their representations (literals, URI literals, JSON, Atom)."""
import base64
import datetime
import decimal
import itertools
import json
import math
import os
import re
import string
import struct
import traceback
import uuid
import mclib
import xmltree
from odschema import Model
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.odata2.metadata as metadata
import pyslet.iso8601 as iso
import pyslet.rfc2396 as uri

PARTS = os.environ.get('C19_PARTS', 'vlcse')
D_ = decimal.Decimal
ST = edm.SimpleType
TYPES = ('Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Time', 'Decimal', 'Double', 'Single', 'Guid', 'Int16', 'Int32',
         'Int64', 'String', 'SByte')
INTS = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-2 ** 15, 2 ** 15 - 1), 'Int32': (-2 ** 31, 2 ** 31 - 1),
        'Int64': (-2 ** 63, 2 ** 63 - 1)}
EPOCH = datetime.date(1970, 1, 1).toordinal()


# ---- abstract values (JSON-able): what a value is, without the library's classes
# int: n; float: repr string; bool; string: unicode_escape; binary: hex; guid: hex; decimal: str
# datetime: (ordinal day, ticks of 100ns); time: ticks; offset: (day, ticks, zone minutes)

def chk(ctx, ok, msg, **case):
    ctx.check(ok, msg, msg, case)


def make_time(ticks, zone=None):
    s, frac = divmod(ticks, 10 ** 7)
    h, r = divmod(s, 3600)
    m, s = divmod(r, 60)
    if frac:
        s = float('%i.%07i' % (s, frac))
    if zone is None:
        return iso.Time(hour=h, minute=m, second=s)
    return iso.Time(hour=h, minute=m, second=s, zDirection=cmp(zone, 0), zHour=abs(zone) // 60, zMinute=abs(zone) % 60)


def make_date(day):
    d = datetime.date.fromordinal(day)
    return iso.Date(century=d.year // 100, year=d.year % 100, month=d.month, day=d.day)


def pyvalue(t, a):
    if a is None:
        return None
    if t in INTS:
        return long(a) if t == 'Int64' else int(a)
    if t == 'Boolean':
        return bool(a)
    if t == 'Binary':
        return a.decode('hex')
    if t == 'String':
        return a.encode('ascii').decode('unicode_escape')
    if t == 'Guid':
        return uuid.UUID(hex=a)
    if t == 'Decimal':
        return D_(a)
    if t in ('Double', 'Single'):
        return float(a)
    if t == 'Time':
        return make_time(a)
    if t == 'DateTime':
        return iso.TimePoint(date=make_date(a[0]), time=make_time(a[1]))
    if t == 'DateTimeOffset':
        return iso.TimePoint(date=make_date(a[0]), time=make_time(a[1], a[2]))


def single(x):
    if math.isnan(x) or math.isinf(x):
        return repr(x)
    try:
        return repr(struct.unpack('<f', struct.pack('<f', x))[0])
    except OverflowError:
        return 'overflow %r' % x


def ticks_of(t):
    return int(round((t.hour * 3600 + t.minute * 60 + t.second) * 1e7))


def day_of(d):
    return datetime.date(d.century * 100 + d.year, d.month, d.day).toordinal()


def abstract(t, v):
    """what the SimpleValue v holds, read through its public value attribute"""
    x = v.value
    if x is None:
        return None
    if t in INTS:
        assert isinstance(x, (int, long)) and not isinstance(x, bool), repr(x)
        return int(x)
    if t == 'Boolean':
        assert isinstance(x, bool), repr(x)
        return x
    if t == 'Binary':
        assert isinstance(x, str), repr(x)
        return x.encode('hex')
    if t == 'String':
        assert isinstance(x, unicode), repr(x)
        return x.encode('unicode_escape')
    if t == 'Guid':
        return x.hex
    if t == 'Decimal':
        assert isinstance(x, D_), repr(x)
        return '0' if x == 0 else format(x.normalize(decimal.Context(prec=80)), 'f')
    if t == 'Double':
        assert isinstance(x, float), repr(x)
        return repr(x)
    if t == 'Single':
        assert isinstance(x, float), repr(x)
        return single(x)
    if t == 'Time':
        return ticks_of(x)
    if t == 'DateTime':
        assert x.GetZone()[0] is None, str(x)
        return [day_of(x.date), ticks_of(x.time)]
    if t == 'DateTimeOffset':
        d, off = x.GetZone()
        assert d is not None, str(x)
        return [day_of(x.date), ticks_of(x.time), d * off]


def canon(t, a):
    """the abstract value in the form abstract() gives"""
    if a is None:
        return None
    if t == 'Decimal':
        x = D_(a)
        return '0' if x == 0 else format(x.normalize(decimal.Context(prec=80)), 'f')
    if t == 'Double':
        return repr(float(a))
    if t == 'Single':
        return single(float(a))
    if t in INTS:
        return int(a)
    if t == 'String':
        return a.encode('ascii').decode('unicode_escape').encode('unicode_escape')
    return a


def trunc(t, a, digits):
    """a with its seconds cut to the given number of decimal digits"""
    q = 10 ** (7 - digits)
    if t == 'Time':
        return a // q * q
    return [a[0], a[1] // q * q] + a[2:]


def to_ms(t, a):
    """JSON dates hold milliseconds: the nearest one (either neighbour of a half)"""
    out = []
    for r in (4999, 5000):
        ms = (a[1] + r) // 10000
        day, ms = a[0] + ms // 86400000, ms % 86400000
        out.append([day, ms * 10000] + a[2:])
    return out


STRING_PIECES = [u'', u'a', u' ', u"'", u'"', u'<', u'&', u'>', u']]>', u'\n', u'\r', u'\t', u'%27', u'+', u'/', u'\\', u'\xe9',
                 u'\u20ac', u'\U0001f600', u'null', u'\u2028', u'\x7f', u'\ufffd', u'\x85', u'0']


def values(t, thorough):
    if t in INTS:
        lo, hi = INTS[t]
        if hi <= 255:
            return range(lo, hi + 1)
        out = set([lo, lo + 1, hi, hi - 1, 0])
        for i in range(64):
            for d in (-1, 0, 1):
                for s in (1, -1):
                    out.add(s * (2 ** i + d))
                    if i < 19:
                        out.add(s * (10 ** i + d))
        return sorted([x for x in out if lo <= x <= hi])
    if t == 'Boolean':
        return [True, False]
    if t == 'Binary':
        one = ['%02x' % i for i in range(256)]
        out = [''] + one + [a + b for a in one[::15] for b in one[::17]]
        return out + ['00' * n for n in range(3, 8)] + ['fe' * n for n in (57, 58, 76, 77, 200)] + ['0d0a', '0a', '27', '2b2f', 'fbefbe']
    if t == 'String':
        n = 3 if thorough else 2
        return sorted(set([u''.join(p).encode('unicode_escape') for p in itertools.product(STRING_PIECES, repeat=n)]))
    if t == 'Guid':
        return [uuid.UUID(int=i).hex for i in (0, 1, 2 ** 127, 2 ** 128 - 1, 0x0123456789abcdef0123456789abcdef)] + ['%032x' % (15 << 4 * i) for i in range(32)]
    if t == 'Decimal':
        out = ['0', '0.0', '-0', '0E+5', '0E-29', '9' * 29 + '.' + '3' * 29, '-' + '9' * 29 + '.' + '3' * 29, '1E-30', '4.9E-29', '1.5E-28', '1E-40',
               '12345.' + '1' * 35, '9' * 29 + '.' + '3' * 35, '-12345.' + '6' * 35]
        for digits in ('1', '5', '10', '99', '100', '123', '12345678', '1234567890123456789012345678', '12345678901234567890123456789', '9' * 29):
            for e in (range(-29, 30) if thorough else (-29, -28, -15, -7, -6, -5, -2, -1, 0, 1, 2, 6, 7, 20, 27, 28)):
                if len(digits) + e <= 29:
                    for s in ('', '-'):
                        out.append('%s%sE%i' % (s, digits, e))
        return out
    if t in ('Double', 'Single'):
        xs = [0.0, 1.0, 0.1, 1 / 3.0, 2 / 3.0, 123456.789, 1234567890123456.7, 1.0000000000000002, 16777217.0, 99999999.0, 100000000.0]
        lo, hi = (-1074, 1024) if t == 'Double' else (-149, 128)
        step = 1 if (thorough or t == 'Single') else 7
        for i in range(lo, hi, step):
            xs.append(2.0 ** i)
            xs.append(2.0 ** i * (1.9999999999999998 if t == 'Double' else 1.9999998807907104))
        for i in range(-30, 38):
            xs.extend([float('1e%i' % i), float('9.87654321e%i' % i)])
        if t == 'Double':
            xs.extend([5e-324, 2.2250738585072014e-308, 1.7976931348623157e308])
        else:
            xs = [float(single(x)) for x in xs]
            xs = [x for x in xs if x <= edm.SingleValue.Max]
        out = set()
        for x in xs:
            out.add(repr(x))
            out.add(repr(-x))
        return sorted(out) + ['inf', '-inf', 'nan']
    ticks = [0, 1, 10, 4999, 5000, 9999, 10000, 1230000, 1234567, 5000000, 9990000, 9999999, 10 ** 7, 59 * 10 ** 7, 599999999, 6 * 10 ** 8,
             35999999999, 36 * 10 ** 9, 452967890123, 12 * 36 * 10 ** 9, 863990000000, 863999990000, 863999999999]
    if thorough:
        ticks = sorted(set(ticks + [h * 36 * 10 ** 9 + m * 6 * 10 ** 8 + s for h in (0, 1, 9, 10, 23) for m in (0, 1, 59)
                                    for s in [10 ** i for i in range(9)] + [3 * 10 ** i for i in range(9)] + [10 ** i - 1 for i in range(9)]]))
    if t == 'Time':
        return ticks
    days = [datetime.date(*d).toordinal() for d in ((1, 1, 1), (99, 12, 31), (100, 1, 1), (1752, 9, 14), (1899, 12, 31), (1900, 2, 28), (1900, 3, 1),
            (1969, 12, 31), (1970, 1, 1), (1999, 12, 31), (2000, 2, 29), (2000, 3, 1), (2012, 2, 29), (2012, 12, 31), (2038, 1, 19), (9999, 12, 31))]
    if t == 'DateTime':
        return [[d, k] for d in days for k in ticks]
    return [[d, k, z] for d in days[::1 if thorough else 2] for k in (ticks if thorough else ticks[::2])
            for z in (0, 1, -1, 60, -60, 330, -300, 840, -765)]


# ---- the four representations of a value

SCH = Model({'T': '<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>' + ''.join(
    ['<Property Name="%s" Type="Edm.%s" Nullable="true"/>' % (t, t) for t in TYPES] +
    ['<Property Name="%s%i" Type="Edm.%s" Nullable="true" Precision="%i"/>' % (t, p, t, p) for t in ('DateTime', 'DateTimeOffset', 'Time')
     for p in (0, 3, 7)])}, [])
CACHE = {}


def pdef(name):
    if 'doc' not in CACHE:
        CACHE['doc'] = SCH.load(metadata.Document)
        s = CACHE['doc'].root.DataServices.Schema[0]
        CACHE['type'] = s['TT']
    return CACHE['type'][name]


def via_literal(p, v):
    w = p()
    w.SetFromLiteral(unicode(v))
    return w


def via_uri(p, v):
    w = core.ParseURILiteral(core.ODataURI.FormatLiteral(v))
    if w.typeCode != v.typeCode:
        # the number forms of the smaller integers are those of Int32; casting recovers the value
        if v.typeCode in (ST.Byte, ST.SByte, ST.Int16) and w.typeCode == ST.Int32:
            x = p()
            x.SetFromSimpleValue(w)
            return x
        raise AssertionError('type %s' % ST.EncodeValue(w.typeCode))
    return w


def via_json(p, v):
    w = p()
    text = core.EntityPropertyInJSON1(v)
    core.ReadEntityPropertyInJSON1(w, json.loads(text))
    return w


def via_json2(p, v):
    w = p()
    text = core.EntityPropertyInJSON2(v)
    obj = json.loads(text)
    if obj.keys() != ['results']:
        raise AssertionError(text)
    core.ReadEntityPropertyInJSON1(w, obj['results'])
    return w


def via_atom(p, v):
    w = p()
    doc = core.Document()
    e = core.Property(doc)
    e.SetXMLName((core.ODATA_DATASERVICES_NAMESPACE, p.name))
    doc.root = e
    e.SetValue(v)
    text = unicode(doc)
    CACHE['atom'] = text
    d2 = core.Document()
    d2.Read(src=text.encode('utf-8'))
    d2.root.GetValue(w)
    return w


def via_typed(p, v):
    """as a document with the type in an attribute, read by someone who does not know the property"""
    e = core.Property(None)
    e.SetXMLName((core.ODATA_DATASERVICES_NAMESPACE, p.name))
    doc = core.Document(root=e)
    e.SetValue(v)
    d2 = core.Document()
    d2.Read(src=unicode(doc).encode('utf-8'))
    w = d2.root.GetValue()
    if w.typeCode != v.typeCode:
        raise AssertionError('type %s' % ST.EncodeValue(w.typeCode))
    return w


VIAS = [('literal', via_literal), ('uri', via_uri), ('json', via_json), ('json2', via_json2), ('atom', via_atom), ('typed', via_typed)]


def xml_ok(s):
    return all([c in u'\t\n\r' or u' ' <= c for c in s])


def check_value(ctx, t, a, prec, tag, extra):
    name = t if prec is None else '%s%i' % (t, prec)
    case = dict(extra, part='v', type=t, value=a, prec=prec)
    p = pdef(name)
    v = p()
    v.SetFromValue(pyvalue(t, a))
    want = canon(t, a)
    if t == 'Single' and a is not None:
        want = single(float(a))
    got = abstract(t, v)
    chk(ctx, got == want, 'setting an Edm.%s to %r gives %r' % (t, a, got), **case)
    for vname, via in VIAS:
        if a is None and vname == 'literal':
            try:
                unicode(v)
                chk(ctx, False, 'NULL has a literal form (Edm.%s)' % t, **case)
            except ValueError:
                chk(ctx, True, '', **case)
            continue
        if a is None and vname == 'uri':
            w = core.ParseURILiteral(core.ODataURI.FormatLiteral(v))
            chk(ctx, w.value is None, 'the URI literal of NULL (Edm.%s) is %s' % (t, core.ODataURI.FormatLiteral(v)), **case)
            continue
        if vname in ('atom', 'typed') and t == 'String' and a is not None and not xml_ok(pyvalue(t, a)):
            continue
        wants = [want]
        if a is not None and t in ('DateTime', 'DateTimeOffset', 'Time'):
            if vname[:4] == 'json' and t != 'Time':
                wants = to_ms(t, want)
            elif prec is not None:
                wants = [trunc(t, want, prec)]
        if t == 'Decimal' and a is not None and D_(a).as_tuple().exponent < -29:
            # 29 decimal places can be written
            wants = [canon(t, str(D_(a).quantize(D_('1E-29'), context=decimal.Context(prec=80))))]
        if vname[:4] == 'json' and t != 'Time' and any([isinstance(w_, list) and w_[0] > datetime.date(9999, 12, 31).toordinal() for w_ in wants]):
            continue
        ctx.transitions += 1
        try:
            w = via(p, v)
            got = abstract(t, w)
        except Exception as e:
            chk(ctx, False, 'Edm.%s %r through %s: %s' % (t, a, vname, traceback.format_exc().splitlines()[-1]), **case)
            continue
        chk(ctx, got in wants, 'Edm.%s %r through %s becomes %r' % (t, a, vname, got), **case)
        chk(ctx, abstract(t, v) == want, 'Edm.%s %r changes when it is written (%s)' % (t, a, vname), **case)


def part_v(ctx):
    n = 0
    for t in TYPES:
        vals = [None] + list(values(t, ctx.thorough))
        for prec in ((None, 0, 3, 7) if t in ('DateTime', 'DateTimeOffset', 'Time') else (None,)):
            if t == 'DateTimeOffset' and prec in (0, 7) and not ctx.thorough:
                continue
            for i in range(0, len(vals), 40):
                n += 1
                if not ctx.mine():
                    continue
                for a in vals[i:i + 40]:
                    ctx.case({'part': 'v', 'type': t, 'value': a, 'prec': prec})
                    ctx.state(('v', t, prec, repr(a)))
                    check_value(ctx, t, a, prec, 'v', {})
    ctx.bounds['values'] = 'every value of the boundary sets of the 15 simple types, with every precision'


# ---- literal texts: sound, and complete for the forms CSDL defines

FORMS = {
    'Boolean': r'(?i)(true|false)$', 'Byte': r'[0-9]{1,3}$', 'SByte': r'-?[0-9]{1,3}$', 'Int16': r'-?[0-9]{1,5}$', 'Int32': r'-?[0-9]{1,10}$',
    'Int64': r'-?[0-9]{1,19}$', 'Decimal': r'-?[0-9]{1,29}(\.[0-9]{1,29})?$',
    'Double': r'(-?[0-9]{1,17}|-?[0-9]*\.[0-9]+|-?[0-9]\.[0-9]{1,16}[eE]-?[0-9]{1,3}|-?INF|NaN)$',
    'Single': r'(-?[0-9]{1,8}|-?[0-9]*\.[0-9]+|-?[0-9]\.[0-9]{1,8}[eE]-?[0-9]{1,2}|-?INF|NaN)$',
    'Guid': r'(?i)[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$',
    'Binary': r'(?i)([0-9a-f]{2})*$',
    'DateTime': r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]{1,7}))?)?$',
    'Time': r'([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]{1,7}))?$',
    'DateTimeOffset': r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]{1,7}))?(?:Z|([+-])([0-9]{2}):([0-9]{2}))$',
}
NUMERIC = re.compile(r'(-?)([0-9]*)(?:(\.)([0-9]*))?(?:[eE](-?)([0-9]+))?$')
DTLOOSE = re.compile(r'([0-9]{4})-([0-9]+)-([0-9]{1,2})T([0-9]+):([0-9]{1,2})(?::([0-9]{1,2})(?:\.([0-9]{1,7}))?)?$')
TLOOSE = re.compile(r'([0-9]+):([0-9]{1,2})(?::([0-9]{1,2})(?:\.([0-9]{1,7}))?)?$')


def hms(h, m, s, f):
    """ticks, or None when it is no time of day; leap seconds count as the 59th"""
    h, m, s = int(h), int(m), int(s or 0)
    ticks = int((f or '').ljust(7, '0'))
    if h == 24 and (m or s or ticks):
        return None
    if h > 24 or m > 59 or s > 60:
        return None
    return ((h * 60 + m) * 60 + s) * 10 ** 7 + ticks


def reading(t, text):
    """(form, value): form True when the text has the form CSDL defines; value the abstract value of the plain
    reading of the text, None when there is none"""
    form = re.match(FORMS[t], text) is not None
    if t == 'Boolean':
        return form, ({'true': True, 'false': False}.get(text.lower()))
    if t == 'Guid':
        return form, (text.replace('-', '').lower() if form else None)
    if t == 'Binary':
        return form, (text.lower() if form else None)
    if t == 'DateTime':
        m = DTLOOSE.match(text)
        if not m:
            return form, None
        y, mo, d, h, mi, s, f = m.groups()
        k = hms(h, mi, s, f)
        try:
            day = datetime.date(int(y), int(mo), int(d)).toordinal()
        except ValueError:
            return form, None
        return form, (None if k is None else [day, k])
    if t == 'DateTimeOffset':
        m = re.match(FORMS[t], text)
        if not m:
            # other forms of ISO 8601 are not looked at
            return form, 'any'
        y, mo, d, h, mi, s, f, sg, zh, zm = m.groups()
        k = hms(h, mi, s, f)
        try:
            day = datetime.date(int(y), int(mo), int(d)).toordinal()
        except ValueError:
            return form, None
        if k is None:
            return form, None
        z = int(zh or 0) * 60 + int(zm or 0)
        if int(zm or 0) > 59 or z > 14 * 60:
            return False, 'any'
        return form, [day, k, -z if sg == '-' else z]
    if t == 'Time':
        m = TLOOSE.match(text)
        return form, (hms(*m.groups()) if m else None)
    low = text.lower()
    if t in ('Double', 'Single') and low in ('inf', '-inf', 'nan'):
        return form, repr(float(low))
    m = NUMERIC.match(text)
    if not m or not (m.group(2) or m.group(4)):
        return form, None
    if t in INTS:
        if not re.match(r'-?[0-9]+$', text):
            return form, None
        lo, hi = INTS[t]
        return form, (int(text) if lo <= int(text) <= hi else None)
    if t == 'Decimal':
        if m.group(6):
            return form, None
        return form, canon(t, text)
    x = float(text)
    if math.isinf(x) or (t == 'Single' and abs(x) > edm.SingleValue.Max):
        return form, None
    return form, (repr(x) if t == 'Double' else single(x))


def literal_texts(t, thorough):
    if t == 'Boolean':
        return ['true', 'false', 'True', 'FALSE', 'tRuE', '', '1', '0', 'yes', ' true', 'true ', 'truex', 'null', 'tru']
    if t == 'Guid':
        g = '01234567-89ab-cdef-0123-456789abcdef'
        return [g, g.upper(), g.replace('-', ''), '{' + g + '}'] + [g[:i] + g[i + 1:] for i in range(len(g))] + [g[:i] + 'g' + g[i + 1:] for i in range(len(g))] + \
            [g[:i] + '0' + g[i:] for i in range(len(g))] + [g + ' ', ' ' + g, '']
    if t == 'Binary':
        return [''.join(p) for n in range(4) for p in itertools.product('0aFg ', repeat=n)] + ['0123456789abcdefABCDEF', '00' * 300]
    if t == 'DateTimeOffset':
        zones = ['Z', '+00:00', '-00:00', '+05:30', '-12:00', '+14:00', '', 'z', '+5', '+0530', '-0:0', '+00:60', 'X', '+']
        times = ['00:00:00', '23:59:59', '23:59:59.9999999', '12:00:00.5', '12:00:00.0000001', '24:00:00', '24:00:01', '12:60:00', '12:00:61', '12:00', '12', '', '12:00:00.']
        dates = ['0001-01-01', '1999-12-31', '2000-02-29', '1900-02-29', '2012-13-01', '2012-00-01', '2012-01-00', '9999-12-31', '2012-1-1', '20120101', '0000-01-01', 'garbage', '']
        return [d + sep + k + z for d in dates for sep in ('T', ' ') for k in times for z in zones]
    if t in ('DateTime', 'Time'):
        hh = ['00', '0', '9', '12', '23', '24', '25', '-1', '012'] + (['1', '09', '2 '] if thorough else [])
        mm = ['00', '59', '60', '5', '61', '0', '009']
        ss = ['', ':', ':00', ':59', ':60', ':61', ':5', ':00.', ':00.0', ':00.5', ':59.9999999', ':00.12345678', ':00.0000001', ':60.5', ':30Z', ':30.5Z', ':00,5', ':00.-5']
        times = [a + ':' + b + c for a in hh for b in mm for c in ss]
        if t == 'Time':
            return times + ['', '12', '12:', ':00', '12:00:00 ', ' 12:00:00', '1200', 'T12:00:00']
        dates = ['%s-%s-%s' % (y, m, d) for y in ('0001', '0000', '1900', '2000', '2012', '2013', '9999', '99', '10000', '-0001')
                 for m in ('01', '1', '02', '12', '00', '13', '001') for d in ('01', '1', '00', '28', '29', '30', '31', '32', '012')]
        return [d + 'T12:00:00' for d in dates] + ['2012-02-29T' + x for x in times] + [
            '', '2012-02-29', '2012-02-29T', '2012-02-29 12:00:00', '2012-02-29t12:00:00', '20120229T120000', ' 2012-02-29T12:00', '2012-02-29T12:00 ', '2012-060T12:00:00']
    signs = ['', '-', '+', '--', ' ']
    if t in INTS:
        lo, hi = INTS[t]
        ints = ['', '0', '00', '1', '9', '10', str(hi), str(hi + 1), str(-lo), str(1 - lo), '0' + str(hi), '000' + str(hi), '1' + '0' * len(str(hi)), 'x', '1x', '0x10',
                '1 ', '1L', u'\u0661'.encode('utf-8'), u'\xb2'.encode('utf-8')]
        tails = ['', '.', '.0', '.5', 'e', 'e0', 'e1', 'E-1', 'E+1']
        return [s + i + x for s in signs for i in ints for x in tails] + ['inf', '-inf', 'nan', 'INF', 'NaN', '-', '.']
    ls = ['', '0', '1', '9', '12', '007', '1' * 8, '1' * 9, '9' * 17, '9' * 18, '1' + '0' * 28, '9' * 29, '1' + '0' * 29, '0' * 30, '1' + '0' * 60]
    rs = ['', '.', '.0', '.5', '.12345678', '.' + '1' * 16, '.' + '1' * 17, '.' + '3' * 29, '.' + '0' * 29 + '1', '.1x', '. 5']
    es = ['', 'e', 'e0', 'e5', 'E5', 'e+5', 'e-5', 'e05', 'e38', 'e39', 'e-45', 'e-46', 'e300', 'e308', 'e309', 'e-324', 'e-330', 'e999', 'e-999', 'e1000', 'e5.0', 'f', 'D']
    return [s + l + r + e for s in signs for l in ls for r in rs for e in es] + [
        'inf', '-inf', 'nan', '-nan', 'INF', '-INF', 'NaN', 'Nan', '-NaN', 'Inf', 'infinity', '+INF', 'nanx', 'infe5', 'inf.0', 'Infinity', '.', '-', '-.', 'e5', '.e5']


def check_literal(ctx, t, text, extra):
    case = dict(extra, part='l', type=t, text=text.encode('string_escape'))
    utext = text.decode('utf-8')
    form, val = reading(t, utext)
    v = edm.EDMValue.NewSimpleValue(getattr(ST, t))
    start = {'String': u'x', 'Binary': 'x', 'Boolean': True, 'Guid': uuid.UUID(int=7), 'Time': make_time(7), 'DateTime': pyvalue('DateTime', [7, 7]),
             'DateTimeOffset': pyvalue('DateTimeOffset', [7, 7, 0])}.get(t, 7)
    v.SetFromValue(start)
    before = abstract(t, v)
    ctx.transitions += 1
    try:
        v.SetFromLiteral(utext)
    except ValueError:
        chk(ctx, not (form and val is not None and val != 'any'), 'Edm.%s: the literal %s is refused' % (t, text.encode('string_escape')), **case)
        chk(ctx, abstract(t, v) == before, 'Edm.%s: the refused literal %s changes the value' % (t, text), **case)
        ctx.outcome('%s refused' % t)
        return
    except Exception as e:
        chk(ctx, False, 'Edm.%s: the literal %s raises %s' % (t, text, traceback.format_exc().splitlines()[-1]), **case)
        return
    got = None
    try:
        got = abstract(t, v)
    except Exception as e:
        got = 'no proper value: %s' % e
    chk(ctx, val == 'any' or val is not None and got == val, 'Edm.%s: the literal %s is read as %r' % (t, text.encode('string_escape'), got), **case)
    ctx.outcome('%s read' % t)


def part_l(ctx):
    n = 0
    for t in sorted(FORMS):
        texts = literal_texts(t, ctx.thorough)
        for i in range(0, len(texts), 300):
            n += 1
            if not ctx.mine():
                continue
            for text in texts[i:i + 300]:
                ctx.case({'part': 'l', 'type': t, 'text': text.encode('string_escape')})
                ctx.state(('l', t, text))
                check_literal(ctx, t, text, {})
    ctx.bounds['literals'] = 'every combination of the listed signs, digits, fractions and exponents (dates: fields); %i types' % len(FORMS)


# ---- setting values from other values

CASTS = [('i', 0), ('i', 1), ('i', -1), ('i', 127), ('i', 128), ('i', -128), ('i', -129), ('i', 255), ('i', 256), ('i', 32767), ('i', 32768), ('i', -32768),
         ('i', -32769), ('i', 2147483647), ('i', 2147483648), ('i', -2147483648), ('i', -2147483649), ('i', 9223372036854775807), ('i', 9223372036854775808),
         ('i', -9223372036854775808), ('i', -9223372036854775809), ('i', 10 ** 29 - 1), ('i', 10 ** 29), ('i', 86399), ('i', 86400), ('i', 3661), ('i', 59), ('i', 10 ** 40), ('i', 10 ** 309),
         ('f', '0.0'), ('f', '0.5'), ('f', '-0.5'), ('f', '1.9'), ('f', '-1.9'), ('f', '254.9'), ('f', '127.5'), ('f', '-127.5'), ('f', '1e9'), ('f', '1e30'), ('f', '1e39'), ('f', '1e308'), ('f', '86399.5'),
         ('f', '3723.25'), ('f', 'nan'), ('f', 'inf'), ('f', '-inf'), ('f', '9.2e18'), ('f', '1e19'),
         ('d', '0'), ('d', '0.5'), ('d', '-1.9'), ('d', '254.9'), ('d', '1E+28'), ('d', '1E+29'), ('d', '86399.5'), ('d', '1.5E-29'), ('d', '1E+400'),
         ('b', True), ('b', False), ('s', 'x'), ('s', '1'), ('u', 'x'), ('s', ''), ('n', None), ('g', 7), ('t', 36610000000), ('T', [730000, 36610000001]),
         ('Z', [730000, 36610000001, 330]), ('D', [2012, 2, 29, 1, 2, 3, 456789]), ('D', [1, 1, 1, 0, 0, 0, 0]), ('o', 0), ('s16', 0), ('s32', 0)]


def cast_source(kind, a):
    if kind == 'i':
        return a
    if kind == 'f':
        return float(a)
    if kind == 'd':
        return D_(a)
    if kind in 'bs':
        return a
    if kind == 'u':
        return unicode(a)
    if kind == 'n':
        return None
    if kind == 'g':
        return uuid.UUID(int=a)
    if kind == 't':
        return make_time(a)
    if kind == 'T':
        return pyvalue('DateTime', a)
    if kind == 'Z':
        return pyvalue('DateTimeOffset', a)
    if kind == 'D':
        return datetime.datetime(*a)
    if kind == 's16':
        return '0123456789abcdef'
    if kind == 's32':
        return '0123456789abcdef0123456789ABCDEF'
    return object()


def cast_want(t, kind, a):
    """the abstract value documented for setting t from the source, 'refused', or 'any' where nothing is promised"""
    if kind == 'n':
        return None
    num = None
    if kind in 'ifd' and len(kind) == 1:
        if kind == 'f' and a in ('nan', 'inf', '-inf'):
            if t in ('Double', 'Single'):
                return repr(float(a))
            if t == 'Boolean':
                return True
            if t in ('String', 'Binary'):
                return 'any'
            return 'refused'
        num = D_(a) if kind != 'f' else D_(float(a))
    if t == 'String':
        return u'x'.encode('unicode_escape') if a == 'x' else 'any'
    if t == 'Binary':
        return {'s': (a or '').encode('hex') if kind == 's' else None, 's16': '0123456789abcdef'.encode('hex'), 's32': '0123456789abcdef0123456789ABCDEF'.encode('hex')}.get(kind, 'any')
    if num is not None:
        if t == 'Boolean':
            return num != 0
        if t in INTS:
            lo, hi = INTS[t]
            n = int(num.to_integral_value(decimal.ROUND_DOWN))
            if lo <= num <= hi:
                return n
            return 'refused' if not lo <= n <= hi else 'any'
        if t == 'Decimal':
            return 'refused' if num.copy_abs() > D_('9' * 29) else ('any' if kind == 'f' else canon(t, str(num)))
        if t in ('Double', 'Single'):
            mx = edm.DoubleValue.Max if t == 'Double' else edm.SingleValue.Max
            if abs(num) > D_(mx):
                return 'refused'
            return repr(float(num)) if t == 'Double' else single(float(num))
        if t == 'Time':
            return int(num * 10 ** 7) if 0 <= num < 86400 else 'refused'
        if t == 'DateTime':
            if num < 0:
                return 'refused'
            if num > 253402300799:
                return 'refused'
            return [EPOCH + int(num) // 86400, int((num % 86400) * 10 ** 7)]
        if t == 'DateTimeOffset':
            if num < 0:
                return 'refused'
            if num > 253402300799:
                return 'refused'
            return [EPOCH + int(num) // 86400, int((num % 86400) * 10 ** 7), 0]
        return 'refused'
    if kind == 'b':
        return a if t == 'Boolean' else 'refused'
    if kind == 'g':
        return uuid.UUID(int=a).hex if t == 'Guid' else 'refused'
    if kind == 's16':
        return '0123456789abcdef'.encode('hex') if t == 'Guid' else 'refused'
    if kind == 's32':
        return '0123456789abcdef0123456789abcdef' if t == 'Guid' else 'refused'
    if kind == 't':
        return a if t == 'Time' else 'refused'
    if kind == 'T':
        return a if t == 'DateTime' else 'refused'
    if kind == 'Z':
        return {'DateTime': a[:2], 'DateTimeOffset': a}.get(t, 'refused')
    if kind == 'D':
        if t == 'DateTime':
            return [datetime.date(*a[:3]).toordinal(), ((a[3] * 60 + a[4]) * 60 + a[5]) * 10 ** 7 + a[6] * 10]
        return 'refused'
    return 'refused'


def check_cast(ctx, t, kind, a):
    case = dict(part='c', type=t, kind=kind, value=a)
    src = cast_source(kind, a)
    want = cast_want(t, kind, a)
    v = edm.EDMValue.NewSimpleValue(getattr(ST, t))
    start = {'String': u'q', 'Binary': 'q', 'Boolean': True, 'Guid': uuid.UUID(int=8), 'Time': make_time(7), 'DateTime': pyvalue('DateTime', [7, 7]),
             'DateTimeOffset': pyvalue('DateTimeOffset', [7, 7, 0])}.get(t, 7)
    v.SetFromValue(start)
    before = abstract(t, v)
    ctx.transitions += 1
    for how in ('set', 'cast'):
        if how == 'cast':
            if kind in ('s16', 's32', 'o', 'D', 's', 'n'):
                continue
            try:
                w = edm.EDMValue.NewSimpleValueFromValue(src)
            except (ValueError, TypeError):
                continue
            v.SetFromValue(start)
        try:
            if how == 'set':
                v.SetFromValue(src)
            else:
                v.SetFromSimpleValue(w)
            try:
                got = abstract(t, v)
            except AssertionError as e:
                got = 'no proper value: %s' % e
        except (ValueError, TypeError):
            got = 'refused'
        except Exception as e:
            chk(ctx, False, 'setting Edm.%s from %s %r (%s) raises %s' % (t, kind, a, how, traceback.format_exc().splitlines()[-1]), **case)
            continue
        if got == 'refused':
            chk(ctx, abstract(t, v) == before, 'Edm.%s changes when %s %r is refused (%s)' % (t, kind, a, how), **case)
        if want == 'any':
            continue
        if isinstance(want, list) and isinstance(got, list) and kind == 'f':
            # floating-point seconds: within a tick
            ok = got[:1] == want[:1] and got[2:] == want[2:] and abs(got[1] - want[1]) <= 100
        elif t == 'Time' and kind == 'f' and got != 'refused' and want != 'refused':
            ok = abs(got - want) <= 1
        else:
            ok = got == want
        chk(ctx, ok, 'setting Edm.%s from %s %r (%s) gives %r' % (t, kind, a, how, got), **case)


def part_c(ctx):
    n = 0
    for t in TYPES:
        n += 1
        if not ctx.mine():
            continue
        for kind, a in CASTS:
            ctx.case({'part': 'c', 'type': t, 'kind': kind, 'value': a})
            ctx.state(('c', t, kind, repr(a)))
            check_cast(ctx, t, kind, a)
    ctx.bounds['casts'] = '%i source values for each of the 15 types' % len(CASTS)



# ---- entities

ROOT = 'http://host/svc/'
A_ = '{http://www.w3.org/2005/Atom}'
DS = '{http://schemas.microsoft.com/ado/2007/08/dataservices}'
KP = '<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>'
CT = ('<ComplexType Name="Ct"><Property Name="A" Type="Edm.String" Nullable="true"/><Property Name="D" Type="M.Dt" Nullable="false"/></ComplexType>'
      '<ComplexType Name="Dt"><Property Name="X" Type="Edm.Int32" Nullable="true"/><Property Name="W" Type="Edm.DateTime" Nullable="true"/></ComplexType>')
VALS = {'V': [None, u'', u'x<&"\' ', u'  \xe9\n'], 'A': [None, u'', u'a  b'], 'X': [None, 0, -5], 'W': [None, [734562, 0], [734562, 36610000000]]}
CUSTOM = [('SyndicationAuthorName', 'author/name'), ('SyndicationAuthorEmail', 'author/email'), ('SyndicationAuthorUri', 'author/uri'),
          ('SyndicationContributorName', 'contributor/name'), ('SyndicationContributorEmail', 'contributor/email'),
          ('SyndicationContributorUri', 'contributor/uri'), ('SyndicationTitle', 'title'), ('SyndicationSummary', 'summary'),
          ('SyndicationRights', 'rights'), ('SyndicationPublished', 'published'), ('SyndicationUpdated', 'updated'), ('one', None), ('one/two', None)]
FCVALS = {'String': [None, 'x', 'a b', '<&>', ' lead', 'trail ', '', '\\xe9', '5'], 'Int32': [None, 0, -7], 'Guid': [None, 'ff' * 16],
          'Boolean': [None, True, False], 'Double': [None, '0.5', '1e+22'],
          'DateTime': [None, [734562, 0], [734562, 36610000000], [734562, 36615000000]],
          'DateTimeOffset': [None, [734562, 36610000000, 0], [734562, 36610000000, 330], [734562, 36615000000, -300]]}


def customised():
    """(name, target, type, keep) of the entity types with a customised property"""
    out = []
    for i, (target, path) in enumerate(CUSTOM):
        for t in (('DateTime', 'DateTimeOffset') if target in ('SyndicationPublished', 'SyndicationUpdated') else
                  ('String', 'Int32', 'Guid', 'Boolean', 'Double', 'DateTime')):
            for keep in ('true', 'false', None):
                out.append(('S%i%s%s' % (i, t, keep), target, t, keep))
    return out


SOURCES = [('Y0', 'SyndicationTitle', 'V'), ('Y1', 'SyndicationSummary', 'C/A'), ('Y2', 'SyndicationUpdated', 'C/D/W'), ('Y3', 'SyndicationAuthorName', 'C/D/X'),
           ('Y4', 'SyndicationPublished', 'S'), ('Y5', 'one/two', 'C/A')]
FCNS = 'm:FC_NsPrefix="q" m:FC_NsUri="http://q/" '
BODY = '<Property Name="V" Type="Edm.String" Nullable="true"/><Property Name="C" Type="M.Ct" Nullable="false"/>'


class World(object):

    def __init__(self):
        import pyslet.odata2.server as server
        sets = {'E': KP + BODY, 'F': KP + '<Property Name="V" Type="Edm.String" Nullable="true"/>'}
        attrs = {}
        for name, target, t, keep in customised():
            sets[name] = KP + '<Property Name="P" Type="Edm.%s" Nullable="true" m:FC_TargetPath="%s" %s%s/><Property Name="V" Type="Edm.String" Nullable="true"/>' % (
                t, target, '' if target[:3] == 'Syn' else FCNS, '' if keep is None else 'm:FC_KeepInContent="%s"' % keep)
        for name, target, src in SOURCES:
            sets[name] = KP + BODY + '<Property Name="S" Type="Edm.String" Nullable="true"/>'
            attrs[name] = 'm:FC_TargetPath="%s" m:FC_SourcePath="%s" %s' % (target, src, '' if target[:3] == 'Syn' else FCNS)
        model = Model(sets, [(('E', 2, 'n1'), ('F', 0, 'b1')), (('E', 2, 'nM'), ('F', 2, 'bM'))], extra=CT, set_attrs=attrs)
        doc = model.load(metadata.Document)
        self.container = doc.root.DataServices['M.C']
        self.store = memds.InMemoryEntityContainer(self.container)
        self.server = server.Server(ROOT)
        self.server.SetModel(doc)
        for k in (1, 2, 3):
            with self.container['F'].OpenCollection() as coll:
                e = coll.NewEntity()
                e['K'].SetFromValue(k)
                e['V'].SetFromValue(u'f%i' % k)
                coll.InsertEntity(e)
        with self.container['E'].OpenCollection() as coll:
            for k in (1, 2):
                e = coll.NewEntity()
                e['K'].SetFromValue(k)
                coll.InsertEntity(e)

    def resolve(self, href):
        return self.server.GetResourceFromURI(href)

    def get(self, s, k):
        with self.container[s].OpenCollection() as coll:
            return coll[k]

    def new(self, s):
        with self.container[s].OpenCollection() as coll:
            return coll.NewEntity()


def world():
    if 'world' not in CACHE:
        CACHE['world'] = World()
    return CACHE['world']


def put(e, k, vals):
    if k is not None:
        e['K'].SetFromValue(k)
    e['V'].SetFromValue(vals[0])
    e['C']['A'].SetFromValue(vals[1])
    e['C']['D']['X'].SetFromValue(vals[2])
    e['C']['D']['W'].SetFromValue(pyvalue('DateTime', vals[3]))


def plain(e):
    """everything an entity holds, without the library's classes"""
    out = []
    for n, v in e.DataItems():
        out.append([n, plain_value(v)])
    return out


def plain_value(v):
    if isinstance(v, edm.Complex):
        return [[n, plain_value(x)] for n, x in v.iteritems()]
    x = v.value
    if x is None:
        return None
    if isinstance(x, iso.TimePoint):
        return abstract('DateTime' if x.GetZone()[0] is None else 'DateTimeOffset', v)
    return repr(x)


def bindings(e):
    out = {}
    for n, dv in e.NavigationItems():
        b = []
        for x in dv.bindings:
            if isinstance(x, edm.Entity):
                if x.exists:
                    b.append(['key', x.Key()])
                else:
                    b.append(['new', plain(x), bindings(x)])
            else:
                b.append(['key', x])
        if b:
            out[n] = sorted(b)
    return out


def text_of(entity, fmt, update=False):
    if fmt == 'json':
        return ''.join(entity.GenerateEntityTypeInJSON(update, 2))
    doc = core.Document(root=core.Entry)
    doc.root.SetValue(entity, update)
    return unicode(doc).encode('utf-8')


def text_client(entity):
    """the other way of writing an entry"""
    doc = core.Document(root=core.Entry(None, entity))
    return unicode(doc).encode('utf-8')


def read_into(entity, fmt, text, resolver=None, update=False):
    if fmt == 'json':
        entity.SetFromJSONObject(json.loads(text), resolver, update)
    else:
        doc = core.Document()
        doc.Read(src=text)
        doc.root.GetValue(entity, resolver, update)
    return entity


def bind(w, e, name, what):
    """what: kN existing entity, iN key, n new, l new with a link to E(1)"""
    if what[0] == 'k':
        e[name].BindEntity(w.get('F', int(what[1])))
    elif what[0] == 'i':
        e[name].BindEntity(int(what[1]))
    else:
        f = w.new('F')
        f['K'].SetFromValue(int(what[1]) + 10)
        f['V'].SetFromValue(u'<new>')
        if what[0] == 'l':
            f['b1' if name == 'nM' else 'bM'].BindEntity(w.get('E', 1))
        e[name].BindEntity(f)


def entity_case(ctx, case):
    w = world()
    fmt, mode, vals = case['fmt'], case['mode'], case['vals']
    chk_ = lambda ok, msg: chk(ctx, ok, '%s %s %r n1=%r nM=%r: %s' % (mode, fmt, vals, case['n1'], case['nM'], msg), **case)
    if mode == 'new':
        e = w.new('E')
        put(e, 9, vals)
    else:
        e = w.get('E', 1)
        put(e, None, vals)
    for x in case['n1']:
        bind(w, e, 'n1', x)
    for x in case['nM']:
        bind(w, e, 'nM', x)
    want, links = plain(e), bindings(e)
    if mode == 'update':
        links = dict([(n, b) for n, b in links.items() if n == 'n1' and b[0][0] == 'key'])
    try:
        text = text_of(e, fmt, mode == 'update')
        r = w.new('E') if mode == 'new' else w.get('E', 1)
        read_into(r, fmt, text, w.resolve, mode == 'update')
        got, glinks = plain(r), bindings(r)
    except Exception as ex:
        chk_(False, traceback.format_exc().splitlines()[-1])
        return
    chk_(got == want, 'the properties become %r' % got)
    chk_(glinks == links, 'the links become %r' % glinks)
    chk_(plain(e) == want, 'writing changes the entity')
    ctx.outcome('%s %s' % (mode, fmt))


def complex_case(ctx, case):
    w = world()
    fmt, vals = case['fmt'], case['vals']
    msg = 'complex %s %r: ' % (fmt, vals)
    e, r = w.new('E'), w.new('E')
    put(e, 1, vals)
    put(r, 1, [None, u'old', 77, [700000, 0]])
    want = plain_value(e['C'])
    try:
        if fmt == 'json':
            obj = json.loads(core.EntityCTInJSON(e['C']))
            core.ReadEntityCTInJSON(r['C'], obj)
        elif fmt == 'json2':
            obj = json.loads(core.EntityCTInJSON2(e['C']))
            core.ReadEntityCTInJSON2(r['C'], obj)
        else:
            p = core.Property(None)
            p.SetXMLName((core.ODATA_DATASERVICES_NAMESPACE, 'C'))
            doc = core.Document(root=p)
            p.SetValue(e['C'])
            text = unicode(doc).encode('utf-8')
            d2 = core.Document()
            d2.Read(src=text)
            if fmt == 'atom':
                d2.root.GetValue(r['C'])
            else:
                c = d2.root.GetValue()
                chk(ctx, isinstance(c, edm.Complex) and c['A'].value == vals[1] and c['D']['X'].IsNull() == (vals[2] is None), msg + 'the untyped value is %r' % c, **case)
                return
        got = plain_value(r['C'])
        chk(ctx, got == want, msg + 'becomes %r' % got, **case)
    except Exception as ex:
        chk(ctx, False, msg + traceback.format_exc().splitlines()[-1], **case)


SELECTS = [None, {}, {'*': None}, {'V': None}, {'C': None}, {'K': None, 'V': None}, {'V': None, 'n1': None}, {'nM': None}, {'*': None, 'n1': None}]
SELECTS2 = [{'n1': {'K': None, 'V': None}}, {'V': None, 'nM': {'K': None}}]
EXPANDS = [None, {}, {'n1': None}, {'nM': None}, {'n1': None, 'nM': None}, {'nM': {'b1': None}}]


def setup_links(w, n1, nM):
    e = w.get('E', 1)
    with e['n1'].OpenCollection() as coll:
        for k in list(coll):
            del coll[k]
        for k in n1:
            coll[k] = w.get('F', k)
    with e['nM'].OpenCollection() as coll:
        for k in list(coll):
            del coll[k]
        for k in nM:
            coll[k] = w.get('F', k)


def read_case(ctx, case):
    """An existing entity with selected and expanded properties, as the server writes it and a client reads it"""
    w = world()
    fmt, n1, nM, vals = case['fmt'], case['n1'], case['nM'], case['vals']
    expand, select = case['expand'], case['select']
    msg = 'existing %s %r n1=%r nM=%r expand=%r select=%r: ' % (fmt, vals, n1, nM, expand, select)
    setup_links(w, n1, nM)
    with w.container['E'].OpenCollection() as coll:
        e = coll[1]
        put(e, None, vals)
        coll.UpdateEntity(e)
        try:
            coll.Expand(expand, select)
        except (ValueError, KeyError):
            ctx.outcome('not allowed')
            return
        e = coll[1]
    full = [['K', '1'], ['V', repr(vals[0]) if vals[0] is not None else None],
            ['C', [['A', repr(vals[1]) if vals[1] is not None else None], ['D', [['X', repr(vals[2]) if vals[2] is not None else None], ['W', vals[3]]]]]]]
    sel = lambda n: select is None or n in select or ('*' in select and n in ('K', 'V', 'C'))
    want = [[n, x] for n, x in full if sel(n)]
    wexp = {}
    for n, ks in (('n1', n1), ('nM', nM)):
        if expand and n in expand:
            if select is None or n in select:
                wexp[n] = sorted(ks)
    try:
        text = text_of(e, fmt)
        if fmt == 'json':
            obj = json.loads(text)
            names = set(obj) - set(['__metadata'])
            chk(ctx, names == set([n for n, x in want] + [n for n in ('n1', 'nM') if sel(n)]), msg + 'the members are %s' % sorted(names), **case)
            gexp = {}
            for n in ('n1', 'nM'):
                if n in obj and not (isinstance(obj[n], dict) and '__deferred' in obj[n]):
                    x = obj[n]
                    x = [] if x is None else x['results'] if n == 'nM' else [x]
                    gexp[n] = sorted([int(str(f['__metadata']['uri']).split('(')[1][:-1]) for f in x])
            chk(ctx, gexp == wexp, msg + 'the expansions are %r' % gexp, **case)
            r = w.new('E')
            r.exists = True
            read_into(r, fmt, text)
            got = [[n, x] for n, x in plain(r) if sel(n)]
            chk(ctx, got == want, msg + 'the properties become %r' % got, **case)
        else:
            r = w.new('E')
            r.exists = True
            read_into(r, fmt, text)
            got = [[n, x] for n, x in plain(r) if r.Selected(n)]
            chk(ctx, got == want, msg + 'the selected properties become %r' % got, **case)
            gexp = {}
            for n, dv in r.NavigationItems():
                if dv.isExpanded:
                    with dv.OpenCollection() as coll:
                        gexp[n] = sorted([k for k in coll])
                        for f in coll.itervalues():
                            fsel = select.get(n) if select else None
                            if fsel is None or 'V' in fsel:
                                chk(ctx, f['V'].value == u'f%i' % f.Key(), msg + 'the expanded entity %r has V=%r' % (f.Key(), f['V'].value), **case)
                            if isinstance(expand[n], dict) and select is None:
                                for n2 in expand[n]:
                                    chk(ctx, f[n2].isExpanded, msg + '%s/%s is not expanded' % (n, n2), **case)
            chk(ctx, gexp == wexp, msg + 'the expansions are %r' % gexp, **case)
            root = xmltree.fromstring(text)
            rels = sorted([x.get('rel').split('/')[-1] for x in root.findall(A_ + 'link') if 'related' in (x.get('rel') or '')])
            if select is None:
                chk(ctx, rels == ['n1', 'nM'], msg + 'the links are %r' % rels, **case)
    except Exception as ex:
        chk(ctx, False, msg + traceback.format_exc().splitlines()[-1], **case)


def part_e(ctx):
    combos = list(itertools.product(VALS['V'], VALS['A'], VALS['X'], VALS['W']))
    b1 = [[], ['k1'], ['i2'], ['n1'], ['l1']]
    bM = [[]] + [[x] for x in ('k1', 'i2', 'n1', 'l1')] + [list(p) for p in itertools.product(('k1', 'i2', 'k3', 'n1', 'n2', 'l3'), repeat=2) if p[0] < p[1]]
    if ctx.thorough:
        bM += [list(p) for p in itertools.product(('k1', 'i2', 'k3', 'n1', 'n2', 'l3'), repeat=3) if len(set(p)) == 3]
    jobs = []
    for fmt in ('json', 'atom'):
        for vals in combos:
            for mode in ('new', 'update'):
                jobs.append((entity_case, dict(fmt=fmt, mode=mode, vals=list(vals), n1=[], nM=[])))
            jobs.append((read_case, dict(fmt=fmt, vals=list(vals), n1=[], nM=[1], expand=None, select=None)))
        vals = [u'v', None, 5, None]
        for x in b1:
            for y in bM:
                for mode in ('new', 'update'):
                    if mode == 'update' and len(y) > 1:
                        continue
                    jobs.append((entity_case, dict(fmt=fmt, mode=mode, vals=vals, n1=x, nM=y)))
        for n1 in ([], [1], [3]):
            for nM in ([], [2], [1, 3], [1, 2, 3]):
                for expand in EXPANDS:
                    for select in SELECTS + SELECTS2:
                        jobs.append((read_case, dict(fmt=fmt, vals=vals, n1=n1, nM=nM, expand=expand, select=select)))
    for vals in combos:
        if vals[0] is None:
            for fmt in ('json', 'json2', 'atom', 'untyped'):
                jobs.append((complex_case, dict(fmt=fmt, vals=list(vals))))
    for fn, case in jobs:
        if ctx.mine():
            case['part'] = 'e'
            case['fn'] = fn.__name__
            ctx.case(case)
            ctx.state(('e', json.dumps(case, sort_keys=True)))
            ctx.transitions += 1
            fn(ctx, case)
    ctx.bounds['entities'] = '%i property combinations, %i x %i link combinations, %i x %i expand and select options, in JSON and Atom' % (
        len(combos), len(b1), len(bM), len(EXPANDS), len(SELECTS + SELECTS2))


def target_value(root, target, path):
    """the text at the place a customised property belongs, None when there is no such element"""
    if path is not None:
        names = [A_ + x for x in path.split('/')]
    else:
        names = ['{http://q/}' + x for x in target.split('/')]
    e = root
    for n in names:
        found = e.findall(n)
        if not found:
            return None
        if len(found) > 1:
            raise AssertionError('%i elements %s' % (len(found), n))
        e = found[0]
    return e.text or u''


def count(e, tag):
    return (e.tag == tag) + sum([count(x, tag) for x in e])


def custom_case(ctx, case):
    w = world()
    name, target, t, keep, a, mode = [case[x] for x in ('name', 'target', 'type', 'keep', 'value', 'mode')]
    path = dict(CUSTOM)[target]
    msg = 'customised %s Edm.%s keep=%s %s %r: ' % (target, t, keep, mode, a)
    e = w.new(name)
    e['K'].SetFromValue(4)
    e['V'].SetFromValue(u'v')
    e['P'].SetFromValue(pyvalue(t, a))
    e.exists = mode != 'new'
    hidden = mode == 'unselected'
    if hidden:
        # a title and an update time are always there
        if a is None or path == 'updated' or path == 'title' and t == 'String':
            return
        e.selected = set(['K', 'V'])
    try:
        text = text_client(e) if mode == 'get' else text_of(e, 'atom')
        root = xmltree.fromstring(text)
        got = target_value(root, target, path)
        if hidden:
            r = w.new(name)
            r.exists = True
            read_into(r, 'atom', text)
            chk(ctx, not r.Selected('P') and r.Selected('V') and r['P'].value is None, msg + 'read as %r, selected %r' % (r['P'].value, r.selected), **case)
            chk(ctx, not got or path in ('published',), msg + 'the target has %r' % got, **case)
            return
        if a is None:
            chk(ctx, not got or path in ('updated', 'published'), msg + 'NULL is written as %r' % got, **case)
        elif path not in ('updated', 'published'):
            # the white space of the names and titles of atom is not kept by its processors
            chk(ctx, got is not None and (got == unicode(e['P']) or path and got.strip() == unicode(e['P']).strip()), msg + 'the target has %r' % got, **case)
        r = w.new(name)
        r.exists = mode != 'new'
        read_into(r, 'atom', text)
        v = abstract(t, r['P'])
        want = canon(t, a)
        chk(ctx, v == want, msg + 'read as %r' % (v,), **case)
        chk(ctx, r['V'].value == u'v' and r['K'].value == 4, msg + 'other properties change', **case)
        chk(ctx, r.selected is None, msg + 'only %r is selected' % (r.selected,), **case)
        n = count(root, DS + 'P')
        if a is not None:
            chk(ctx, n == (1 if keep == 'true' else 0), msg + 'the content has the property %i times' % n, **case)
    except Exception as ex:
        chk(ctx, False, msg + traceback.format_exc().splitlines()[-1], **case)


def source_case(ctx, case):
    w = world()
    name, target, src, vals = case['name'], case['target'], case['src'], case['vals']
    path = dict(CUSTOM)[target]
    msg = 'source %s of %s %r: ' % (src, target, vals)
    e = w.new(name)
    put(e, 4, vals)
    e['S'].SetFromValue(case['s'])
    e.exists = True
    try:
        text = text_of(e, 'atom')
        root = xmltree.fromstring(text)
        got = target_value(root, target, path)
        v = e
        for x in src.split('/'):
            v = v[x]
        if path in ('updated', 'published'):
            if src == 'S':
                want = {u'2012-03-04T05:06:07': u'2012-03-04T05:06:07Z', u'2012-03-04T05:06:07+01:00': u'2012-03-04T05:06:07+01:00'}.get(case['s'])
            else:
                want = None if v.value is None else unicode(v) + u'Z'
            if want is not None:
                chk(ctx, got is not None and iso.TimePoint.FromString(got) == iso.TimePoint.FromString(want), msg + 'the target has %r' % got, **case)
        elif v:
            chk(ctx, got is not None and (got == unicode(v) or got.strip() == unicode(v).strip()), msg + 'the target has %r' % got, **case)
        else:
            chk(ctx, not got, msg + 'the target of NULL has %r' % got, **case)
        r = w.new(name)
        r.exists = True
        read_into(r, 'atom', text)
        chk(ctx, plain(r) == plain(e), msg + 'read as %r' % plain(r), **case)
    except Exception as ex:
        chk(ctx, False, msg + traceback.format_exc().splitlines()[-1], **case)


def part_s(ctx):
    n = 0
    for name, target, t, keep in customised():
        for a in FCVALS[t]:
            for mode in ('get', 'new', 'other', 'unselected'):
                n += 1
                if ctx.mine():
                    case = dict(part='s', fn='custom_case', name=name, target=target, type=t, keep=keep, value=a, mode=mode)
                    ctx.case(case)
                    ctx.state(('s', json.dumps(case, sort_keys=True)))
                    ctx.transitions += 1
                    custom_case(ctx, case)
    for name, target, src in SOURCES:
        for vals in itertools.product(VALS['V'], VALS['A'], VALS['X'], VALS['W']):
            for s in ((None, u'2012-03-04T05:06:07', u'2012-03-04T05:06:07+01:00', u'no date', u'') if src == 'S' else (None,)):
                if src == 'S' and vals[0] is not None:
                    continue
                n += 1
                if ctx.mine():
                    case = dict(part='s', fn='source_case', name=name, target=target, src=src, vals=list(vals), s=s)
                    ctx.case(case)
                    ctx.state(('s', json.dumps(case, sort_keys=True)))
                    ctx.transitions += 1
                    source_case(ctx, case)
    ctx.bounds['customised feeds'] = '%i targets, types, values and ways of writing' % n


def explore(ctx):
    if 'v' in PARTS:
        part_v(ctx)
    if 'l' in PARTS:
        part_l(ctx)
    if 'c' in PARTS:
        part_c(ctx)
    if 'e' in PARTS:
        part_e(ctx)
    if 's' in PARTS:
        part_s(ctx)


def replay(ctx, case):
    p = case['part']
    if p == 'v':
        check_value(ctx, case['type'], case['value'], case['prec'], 'v', {})
    elif p == 'l':
        check_literal(ctx, case['type'], case['text'].decode('string_escape'), {})
    elif p == 'c':
        check_cast(ctx, case['type'], case['kind'], case['value'])
    else:
        globals()[case['fn']](ctx, case)
