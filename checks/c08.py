# -*- coding: utf-8 -*-
"""C08: what the XML parser accepts, and what it makes of it, against the JDK's parser."""
import itertools
import re
from StringIO import StringIO
import traceback
import jarray
import mclib
import XmlRef
import pyslet.xml20081126.structures as xml
import pyslet.xml20081126.parser as xmlp
import pyslet.xmlnames20091208 as xmlns

DECLS = [("content", u'<r>', u'</r>', (
    u'<a>', u'</a>', u'<b/>', u'x', u' ', u'\n', u'\r', u'&amp;', u'&#65;', u'<![CDATA[', u']]>', u']', u'<!--', u'-->', u'-', u'<?p', u'?>', u'<', u'&', u'\x01',
    u'\t', u'&lt;', u'&#x1F;', u'&#xD;', u'&#10;', u'?', u'>', u'\u2028', u'\ufffe', u'\x85', u'&e;', u'/>', u'</r>', u'<r>',
    u'&#x110000;', u'&#;', u'<!', u'xml')),
    ("tag", u'<r', u'/>', (
        u' ', u'a', u'=', u'"', u"'", u'a="1"', u" b='2'", u' a=""', u'\n', u'\t', u'\r', u'&lt;', u'&#10;', u'<', u'>', u'/', u'&', u'&e;', u'1', u'\x01',
        u'b', u'&#9;', u'&#32;', u'-', u'\u2028', u'&amp;', u'&quot;', u'\ufffe')),
    ("prolog", u'', u'', (
        u'<?xml version="1.0"?>', u"<?xml version='1.0' encoding='UTF-8'?>", u'<?xml version="1.0" standalone="yes"?>', u'<!DOCTYPE r>',
        u'<!DOCTYPE r []>', u'<!DOCTYPE r [<!ENTITY e "E">]>', u'<!--c-->', u'<?p q?>', u' ', u'\n', u'<r/>', u'<r>', u'</r>', u'x', u'&e;', u'&#32;',
        u'<![CDATA[]]>', u'\r', u']', u'<', u'<?xml?>', u'\ufeff', u'\x01', u'<!', u'>')),
    ("decl", u'<?xml', u'?><r/>', (
        u' ', u'version', u'=', u'"1.0"', u"'1.0'", u' version="1.0"', u' encoding="UTF-8"', u' encoding="u"', u" standalone='yes'", u' standalone="no"',
        u' standalone="maybe"', u'\n', u'"', u'encoding', u'standalone', u'"yes"', u'x', u' version="1.1"', u' encoding=""', u' encoding="1"', u'?', u'>')),
    ("entity", u'<!DOCTYPE r [<!ENTITY e "', u'"><!ENTITY f "F"><!ENTITY g "&g;"><!ENTITY h "&#38;#60;">]><r a="&f;">&e;</r>', (
        u'x', u'<b/>', u'<b>', u'</b>', u'&f;', u'&g;', u'&h;', u'&lt;', u'&#60;', u'&#38;', u'&amp;', u'<', u"'", u' ', u'&', u'%', u'%p;', u'<!--', u'-->',
        u'<![CDATA[', u']]>', u'<?p q?>', u'\n', u'\x01', u'&e;', u']', u';', u'#60;', u'&u;')),
    ("attent", u'<!DOCTYPE r [<!ENTITY f "F"><!ENTITY e "', u'"><!ENTITY g "&g;"><!ENTITY l "&#60;"><!ENTITY h "&#38;#60;">]><r a="&e;"/>', (
        u'x', u'<b/>', u'&f;', u'&g;', u'&h;', u'&l;', u'&lt;', u'&#60;', u'&#38;', u'&amp;', u"'", u' ', u'\n', u'&#10;', u'&#9;', u'&#34;', u'&#39;',
        u'&#38;#10;', u'&e;', u'&u;', u'>', u';', u'&')),
    ("attlist", u'<!DOCTYPE r [<!ENTITY f " F "><!ATTLIST r ', u'>]><r b="  1  &#32; 2 " c=" d  e&#10;"/>', (
        u'a CDATA "v"', u' ', u'b CDATA #IMPLIED', u'b NMTOKEN "x"', u'b NMTOKENS #IMPLIED', u'c ID #IMPLIED', u'c IDREFS #REQUIRED', u'a (x|y) "y"', u'a NMTOKENS "  1  2 "',
        u'a CDATA " &f;&lt;&#10; \n "', u'a', u'CDATA', u'"v"', u"'w'", u'#FIXED', u'#IMPLIED', u'#REQUIRED', u'(x|y)', u'( x | y )', u'NOTATION (n)', u'(', u')', u'|', u'b', u'&', u'<',
        u'ENTITY', u'\n')),
    ("element", u'<!DOCTYPE r [<!ELEMENT r ', u'>]><r/>', (
        u'EMPTY', u'ANY', u'(#PCDATA)', u'(', u')', u'a', u'b', u'|', u',', u'*', u'?', u'+', u' ', u'#PCDATA', u'(a,b)', u'(a|b)', u'(#PCDATA|a)*', u'\n', u'-', u'(a)')),
    ("subset", u'<!DOCTYPE r [', u']><r>&e;</r>', (
        u'<!ENTITY e "E">', u"<!ENTITY e 'F'>", u'<!ENTITY % p "<!ENTITY e \'P\'>">', u'%p;', u'<!-- c -->', u'<?p q?>', u' ', u'\n', u'<!ELEMENT r ANY>', u'<!NOTATION n SYSTEM "x">',
        u'<!NOTATION n PUBLIC "p">', u'<!ENTITY e SYSTEM "x" NDATA n>', u'<!ENTITY % q "">', u'%q;', u'x', u'<!ENTITY', u' e "G"', u'>', u'<!ATTLIST r>', u'<![INCLUDE[', u']]>', u']', u'&e;',
        u'<!ENTITY e PUBLIC "p" "s">', u'<', u'\x01')),
    ("doctype", u'<!DOCTYPE', u'><r/>', (
        u' ', u'r', u' r', u' SYSTEM', u' PUBLIC', u' "s"', u" 'p'", u' "p\u2028"', u'[]', u' []', u'[', u']', u'"', u"'", u's', u'\n', u'<', u'&', u'x', u'"s"')),
    ("names", u'<', u'/>', (
        u'a', u'Z', u'_', u':', u'-', u'.', u'0', u'\u00b7', u'\u00e9', u'\u00d7', u'\u4e00', u'\u3042', u' ', u'=', u'"')),
]
NOSPACE = re.compile(u'(["\']|#IMPLIED|#REQUIRED)[a-zA-Z]')
CORE = 20
EMPTYENC = re.compile(u'encoding *= *["\'][^a-zA-Z]')



def canonical(e):
    out = []

    def walk(e):
        out.append(u'<%s\x01' % e.xmlname)
        a = e.GetAttributes()
        for k in sorted(a):
            out.append(u'@%s=%s\x01' % (k, a[k]))
        data = []
        for c in e.GetChildren():
            if isinstance(c, (str, unicode)):
                data.append(c)
                continue
            if data:
                out.append(u'T%s\x01' % u''.join(data))
                data = []
            walk(c)
        if data and u''.join(data):
            out.append(u'T%s\x01' % u''.join(data))
        out.append(u'>')
    walk(e)
    return u''.join(out)


def parse(src):
    """canonical form, or None and the error"""
    d = xml.Document()
    try:
        d.Read(src=src)
    except (xml.XMLError, UnicodeError), e:
        return None, '%s: %s' % (type(e).__name__, e)
    except ValueError, e:
        return None, '%s: %s' % (type(e).__name__, e)
    return canonical(d.root), None


def jbytes(data):
    return jarray.array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in data], 'b')


def reference(src):
    r = XmlRef.text(src, False, False) if isinstance(src, unicode) else XmlRef.bytes(jbytes(src), False, False)
    return r[0], r[1]


def compare(ctx, key, src):
    ctx.case({'kind': 'parse', 'src': repr(src), 'key': key})
    want, why = reference(src)
    try:
        got, err = parse(src)
    except mclib.StopExploring:
        raise
    except:
        ctx.violation('%s: %r' % (key, src), 'the parser failed with %s\nreference: %r %s' % (traceback.format_exc()[-900:], want, why))
        return
    ctx.outcome((want is None, got is None, want))
    if (want is None) != (got is None):
        if want is None:
            ctx.violation('%s: %r' % (key, src), 'accepted as %r, but is not well-formed: %s' % (got, why))
        else:
            ctx.violation('%s: %r' % (key, src), 'refused (%s), but is well-formed: %r' % (err, want))
    elif want != got:
        ctx.violation('%s: %r' % (key, src), 'read as      %r\nreference is %r' % (got, want))
    ctx.transitions += 1


def skip(name, toks):
    s = u''.join(toks)
    if name == 'decl' and (u'1.1' in s or EMPTYENC.search(s)):
        # the JDK does not look at the encodings of character streams
        return True
    if name == 'prolog' and s.startswith(u'\ufeff'):
        return True
    if name == 'attlist' and NOSPACE.search(s):
        # the JDK does not insist on the white space between two definitions
        return True
    if name == 'subset' and (u'SYSTEM' in s or u'PUBLIC "p" "s"' in s or u'%' in s):
        # external and parameter entities: C09
        return True
    return False


def sequences(ctx, alphabet):
    """all sequences of 2 tokens and of 3 of the first tokens; thorough: 3 and 4"""
    long = 4 if ctx.thorough else 3
    ctx.bounds['tokens'] = '%i, %i over the first %i' % (long - 1, long, CORE)
    for k in range(long):
        for toks in itertools.product(alphabet, repeat=k):
            yield toks
    for toks in itertools.product(alphabet[:CORE], repeat=long):
        yield toks


def documents(ctx):
    for name, pre, post, alphabet in DECLS:
        for toks in sequences(ctx, alphabet):
            if ctx.mine():
                if not skip(name, toks):
                    src = pre + u''.join(toks) + post
                    if ctx.state(src):
                        yield name, src


# (bytes before the text, codec, declared encoding, may go without a byte order mark)
ENCODINGS = [('', 'utf-8', None), ('', 'utf-8', 'UTF-8'), ('\xef\xbb\xbf', 'utf-8', None), ('\xef\xbb\xbf', 'utf-8', 'utf-8'),
             ('\xff\xfe', 'utf-16-le', None), ('\xff\xfe', 'utf-16-le', 'UTF-16'), ('\xfe\xff', 'utf-16-be', None), ('\xfe\xff', 'utf-16-be', 'utf-16'),
             ('', 'iso-8859-1', 'ISO-8859-1'), ('', 'ascii', 'US-ASCII'), ('', 'cp1252', 'windows-1252'), ('', 'iso-8859-15', 'ISO-8859-15'),
             ('', 'utf-16-le', 'UTF-16LE'), ('', 'utf-16-be', 'UTF-16BE')]
CHARS = (u'a', u'\u00e9', u'\u20ac', u'\U0001f600', u'\r\n', u'\r', u'\n', u'&#xD;', u'\u2028', u'\ufeff')
PLAIN = {u'&#xD;': u'\x00'}


def expected(toks):
    # bytes, because Jython's unicode.replace fails on characters outside the basic plane
    t = ''.join([PLAIN.get(c, c).encode('utf-8') for c in toks]).replace('\r\n', '\n').replace('\r', '\n')
    return t.replace('\x00', '\r').decode('utf-8')


def decode(ctx, k, toks, chunk, via):
    bom, codec, declared = ENCODINGS[k]
    decl = u'<?xml version="1.0" encoding="%s"?>' % declared if declared else u''
    if via == 'entity':
        src = u'<!DOCTYPE r [<!ENTITY e "%s">]><r>&e;</r>' % u''.join(toks)
    else:
        src = u'<r>%s</r>' % u''.join(toks)
    if codec.startswith('utf-16') and (u'\U0001f600' in toks or u'\ufeff' in toks):
        # Jython's own codec fails on these
        return
    try:
        data = bom + (decl + src).encode(codec)
    except UnicodeError:
        return
    key = 'decode: %r as %s%s, chunks of %i, %s' % (u''.join(toks), codec, ' declared' if declared else '', chunk, via)
    ctx.case({'kind': 'decode', 'k': k, 'toks': repr(toks), 'chunk': chunk, 'via': via})
    if not ctx.state(key):
        return
    old = xml.XMLEntity.ChunkSize
    xml.XMLEntity.ChunkSize = chunk
    try:
        if via == 'unicode':
            got, err = parse(decl + src)
        elif via == 'file':
            got, err = parse(StringIO(data))
        else:
            got, err = parse(data)
    except mclib.StopExploring:
        raise
    except:
        got, err = None, traceback.format_exc()[-900:]
    finally:
        xml.XMLEntity.ChunkSize = old
    t = expected(toks)
    want = u'<r\x01T%s\x01>' % t if t else u'<r\x01>'
    ctx.transitions += 1
    ctx.outcome(got)
    if got != want:
        ctx.violation(key, '%r read as %r (%s)\nexpected %r' % (data, got, err, want))


def decodings():
    for n in range(4):
        for toks in itertools.product(CHARS, repeat=n):
            for k in range(len(ENCODINGS)):
                for via in ('bytes', 'file', 'unicode', 'entity'):
                    if via in ('unicode', 'entity') and k not in (0, 1):
                        continue
                    for chunk in (1, 2, 4096):
                        if n == 3 and (chunk == 2 or via == 'file'):
                            continue
                        yield k, toks, chunk, via


BAD = ['\x80', '\xc3', '\xc3(', '\xe2\x82', '\xf0\x9f\x98', '\xc0\x80', '\xed\xa0\x80', '\xff', '\xe9', '\xf4\x90\x80\x80', '\xc3\xa9', '\xf0\x9f\x98\x80', '\xef\xbf\xbf',
       '\xef\xbf\xbd', '\xe0\x80\xaf', '\x00']


def explore(ctx):
    ctx.case_limit = 30
    for args in decodings():
        if ctx.mine():
            decode(ctx, *args)
    for b in BAD:
        for pre, post in (('<r>', '</r>'), ("<r a='", "'/>"), ('<r><!--', '--></r>'), ('<r><![CDATA[', ']]></r>'), ('<?xml version="1.0"?><r>', '</r>'), ('<r/><?p ', '?>'),
                          ('<?xml version="1.0" encoding="US-ASCII"?><r>', '</r>'), ('<r>a', '')):
            if ctx.mine():
                compare(ctx, 'bytes', pre + b + post)
    for name, src in documents(ctx):
        compare(ctx, name, src)


def replay(ctx, case):
    if case['kind'] == 'decode':
        decode(ctx, case['k'], eval(case['toks']), case['chunk'], case['via'])
    else:
        compare(ctx, case['key'], eval(case['src']))
