# -*- coding: utf-8 -*-
"""C09: a document that is written and read again is the same document."""
import itertools
import os
import re
import shutil
import tempfile
import traceback
from StringIO import StringIO
import mclib
import XmlRef
import pyslet.xml20081126.structures as xml
import pyslet.xml20081126.parser as xmlp
import pyslet.xmlnames20091208 as xmlns
import pyslet.rfc2396 as uri
import warnings
warnings.simplefilter('ignore')

WS = u' \t\r\n'
XML = xmlns.XML_NAMESPACE
NO = xmlns.NO_NAMESPACE


class Mixed(xml.Element):
    XMLNAME = 'mix'
    XMLCONTENT = xml.XMLMixedContent


class Elements(xml.Element):
    XMLNAME = 'elm'
    XMLCONTENT = xml.ElementContent


class Empty(xml.Element):
    XMLNAME = 'emp'
    XMLCONTENT = xml.XMLEmpty


class Cdata(xml.Element):
    XMLNAME = 'cd'
    SGMLCDATA = True
    XMLCONTENT = xml.XMLMixedContent

CLASSES = {'mix': Mixed, 'elm': Elements, 'emp': Empty, 'cd': Cdata}


class Doc(xml.Document):

    @classmethod
    def GetElementClass(cls, name):
        return CLASSES.get(name, xml.Element)


class NSDoc(xmlns.XMLNSDocument):
    pass


# --- abstract documents: (name, attributes, children), names as the JDK shows them

def collapse(t):
    return re.sub(u'[ \t\r\n]+', u' ', t)


def merged(children):
    result = []
    for c in children:
        if isinstance(c, tuple):
            result.append(c)
        elif result and not isinstance(result[-1], tuple):
            result[-1] += c
        elif c:
            result.append(c)
    return result


def normal(e, keep=False, aware=False):
    """what white space processing may not change"""
    name, attrs, children = e
    a = dict(attrs)
    space = a.get(u'{%s}space' % XML if aware else u'xml:space')
    if space is not None:
        keep = space == u'preserve'
    local = name.split('}')[-1]
    children = merged(children)
    if local == 'elm':
        children = [c for c in children if isinstance(c, tuple)]
    if not keep and local != 'cd':
        if not [c for c in children if not isinstance(c, tuple) and c.strip(WS)]:
            children = [c for c in children if isinstance(c, tuple)]
        children = [c if isinstance(c, tuple) else collapse(c) for c in children]
        if children and not isinstance(children[0], tuple):
            children[0] = children[0].lstrip(WS)
        if children and not isinstance(children[-1], tuple):
            children[-1] = children[-1].rstrip(WS)
        children = [c for c in children if c]
    return (name, tuple(sorted(a.items())), tuple([normal(c, keep, aware) if isinstance(c, tuple) else c for c in children]))


def solid(e):
    """pretty printing can't add white space that matters"""
    kids = merged(e[2])
    if e[0] == 'elm':
        pass
    elif [c for c in kids if isinstance(c, tuple)] and not [c for c in kids if not isinstance(c, tuple) and c.strip(WS)]:
        return False
    return not [c for c in kids if isinstance(c, tuple) and not solid(c)]


def fromref(s):
    """the canonical form of XmlRef as a tree (in bytes: Jython's strings are slow and wrong with characters outside the basic plane)"""
    s = s.encode('utf-8')
    stack = [(None, None, [])]
    i = 0
    while i < len(s):
        c = s[i]
        if c == '>':
            e = stack.pop()
            stack[-1][2].append((e[0], tuple(sorted(e[1].items())), tuple(e[2])))
            i += 1
            continue
        j = s.index('\x01', i)
        v = s[i + 1:j].decode('utf-8')
        i = j + 1
        if c == '<':
            stack.append((v, {}, []))
        elif c == '@':
            k = v.index(u'=', v.find(u'}') + 1)
            stack[-1][1][v[:k]] = v[k + 1:]
        else:
            stack[-1][2].append(v)
    return stack[0][2][0]


def nsname(n):
    if isinstance(n, tuple):
        return u'{%s}%s' % (u'' if n[0] in (None, NO) else n[0], n[1])
    return unicode(n)


def fromlib(e):
    kids = []
    for c in e.GetChildren():
        kids.append(unicode(c) if isinstance(c, (str, unicode)) else fromlib(c))
    return (nsname(e.GetXMLName()), tuple(sorted([(nsname(k), unicode(v)) for k, v in e.GetAttributes().items()])), tuple(merged(kids)))


# --- plain documents

def build(parent, tree):
    cls = parent.GetElementClass(tree[0]) if isinstance(parent, Doc) else CLASSES.get(tree[0], xml.Element)
    e = parent.ChildElement(cls, tree[0])
    for k, v in tree[1]:
        e.SetAttribute(k, v)
    for c in tree[2]:
        if isinstance(c, tuple):
            build(e, c)
        else:
            e.AddData(c)
    e.ContentChanged()
    return e


def write(d, **kw):
    s = StringIO()
    d.WriteXML(s, **kw)
    return s.getvalue()

FORMS = {
    'unicode': lambda d: unicode(d),
    'str': lambda d: str(d),
    'plain': lambda d: write(d, tab=''),
    'plain7': lambda d: write(d, escapeFunction=xml.EscapeCharData7, tab=''),
    'root': lambda d: unicode(d.root),
    'rootstr': lambda d: str(d.root),
}


def created(d, scratch):
    path = os.path.join(scratch, 'f.xml')
    d.SetBase(uri.URIFactory.URLFromPathname(path))
    d.Create()
    f = open(path, 'rb')
    data = f.read()
    f.close()
    os.remove(path)
    return data


def reference(src, aware):
    if isinstance(src, unicode):
        r = XmlRef.text(src, False, aware)
    else:
        r = XmlRef.text(src.decode('utf-8'), False, aware)
    return r[0], r[1]


def roundtrip(ctx, tree, docclass, make, want, forms, scratch=None, aware=False, key=''):
    def bad(what, detail):
        ctx.violation('%s%r: %s' % (key, tree, what), detail)
    try:
        d = docclass()
        root = make(d, tree)
        copy = root.Copy()
        if cmp(copy, root) != 0 or cmp(root, copy) != 0 or fromlib(copy) != fromlib(root):
            bad('copy', 'the copy of %r is %r' % (fromlib(root), fromlib(copy)))
        if cmp(root, root) != 0:
            bad('compare', 'not equal to itself')
        if normal(fromlib(root), False, aware) != want:
            bad('build', 'reads %r\nshould be %r' % (fromlib(root), want))
        for form in forms:
            src = created(d, scratch) if form == 'create' else FORMS[form](d)
            ctx.transitions += 1
            ref, why = reference(src, aware)
            if ref is None:
                bad(form, 'writes %r\nwhich is not well-formed: %s' % (src, why))
                continue
            got = normal(fromref(ref), False, aware)
            if got != want:
                bad(form, 'writes %r\nwhich reads %r\nand not     %r' % (src, got, want))
                continue
            d2 = docclass()
            d2.Read(src=src)
            got = normal(fromlib(d2.root), False, aware)
            if got != want:
                bad(form + ' read', 'writes %r\nwhich the library reads as %r\nand not     %r' % (src, got, want))
                continue
            if (form.startswith('plain') or solid(tree)) and (cmp(d.root, d2.root) != 0 or cmp(d2.root, d.root) != 0):
                bad(form + ' compare', 'writes %r\nwhich compares unequal to %r' % (src, write(d)))
            if form == 'create':
                continue
            again = FORMS[form](d2)
            if aware:
                # the choice between several prefixes of a namespace is free
                ref = reference(again, True)[0]
                again2 = XmlRef.text(FORMS[form](d), False, True)[0]
                if ref is None or normal(fromref(ref), False, True) != want or again2 is None or normal(fromref(again2), False, True) != want:
                    bad(form + ' again', 'writes first %r\nand then     %r' % (src, again))
            elif again != src and (form.startswith('plain') or solid(tree)):
                bad(form + ' again', 'writes first %r\nand then     %r' % (src, again))
            if not aware and FORMS[form](d) != src:
                bad(form + ' twice', 'writes first %r\nand then     %r' % (src, FORMS[form](d)))
    except mclib.StopExploring:
        raise
    except:
        bad('failed', traceback.format_exc()[-1500:])


TEXTS = (u'x', u' ', u'\n', u' x', u'x ', u'\r', u'<&>]]>', u'x  "\'\ty', u'\xe9\u20ac', u'\U0001f600', u'\x85', u']]', u'>',
         ('b', (), ()), ('b', (), (u' y ',)), ('b', (('xml:space', u'preserve'),), (u' z\n',)), ('b', (('xml:space', u'default'),), (u' z  w ', ('c', (), ()), u' ')))
VALUES = (u' ', u'\n', u'\t', u'\r', u'<', u'&', u'>', u'"', u"'", u'x', u'\xe9', u'\u20ac', u'\U0001f600', u'\x85', u'\u2028', u'\x7f', u'&#10;', u']]>')
MODELS = (u'x', u' ', u'\n', u']]>', u'<&', ('mix', (), ()), ('mix', (), (u'x ', ('emp', (), ()))), ('elm', (), (('emp', (), ()), ('mix', (), (u'm',)))), ('emp', (), ()), ('emp', (('a', u'1'),), ()),
          ('cd', (), (u'x',)), ('cd', (), (u' ]]> <b/>&amp; ',)), ('cd', (), ()), ('cd', (), (u']]',)), ('elm', (), (('elm', (), (('cd', (), (u'\n]]>]]>',)),)),)))


def plain_trees(ctx):
    n = 4 if ctx.thorough else 3
    ctx.bounds['children'] = n
    ctx.bounds['value tokens'] = n
    for k in range(n + 1):
        for kids in itertools.product(TEXTS if k < n else TEXTS[:9] + TEXTS[-4:], repeat=k):
            for space in (None, u'preserve', u'default'):
                if k == n and space == u'default':
                    continue
                a = () if space is None else (('xml:space', space),)
                yield 'text', ('r', a, kids), ('unicode', 'str', 'plain') if k < 3 else ('unicode', 'plain7')
    for k in range(n + 1):
        for v in itertools.product(VALUES, repeat=k):
            yield 'value', ('r', (('a', u''.join(v)), ('b', u'')), ()), ('root', 'rootstr') + (('create',) if k < 2 else ())
    for k in range(n + 1):
        for kids in itertools.product(MODELS if k < n else MODELS[:1] + MODELS[2:3] + MODELS[5:9] + MODELS[10:12], repeat=k):
            yield 'model', ('mix', (), kids), ('unicode', 'plain')
            if not [c for c in kids if not isinstance(c, tuple) and c.strip(WS)]:
                yield 'model', ('elm', (), kids), ('unicode', 'plain', 'str') + (('create',) if k < 3 else ())
            if k < 3:
                yield 'model', ('mix', (('xml:space', u'preserve'),), kids), ('unicode', 'plain', 'create')
    # preserve and default at three levels
    for s1, s2, s3 in itertools.product((None, u'preserve', u'default'), repeat=3):
        for t1, t2, t3 in itertools.product((u'', u' ', u' x ', u'\n y'), repeat=3):
            t = ('c', () if s3 is None else (('xml:space', s3),), (t3,) if t3 else ())
            t = ('b', () if s2 is None else (('xml:space', s2),), (t2, t, t2) if t2 else (t,))
            t = ('r', () if s1 is None else (('xml:space', s1),), (t1, t, t1) if t1 else (t,))
            yield 'space', t, ('unicode', 'str', 'plain')


# --- namespaces

def nsbuild(parent, tree):
    ns, name, decls, attrs, kids = tree
    e = parent.ChildElement(xmlns.XMLNSElement, (ns, name))
    for p, u in decls:
        e.MakePrefix(u, p)
    for k, v in attrs:
        e.SetAttribute(k, v)
    for c in kids:
        if isinstance(c, tuple):
            nsbuild(e, c)
        else:
            e.AddData(c)
    return e


def nstree(tree):
    ns, name, decls, attrs, kids = tree
    return (u'{%s}%s' % (ns or u'', name), tuple(sorted([(nsname(k), v) for k, v in attrs])), tuple([nstree(c) if isinstance(c, tuple) else c for c in kids]))

A, B = u'http://a/', u'http://b/&"'
DECLARED = ((), ((u'', A),), ((u'p', A),), ((u'', B),), ((u'p', B),), ((u'', A), (u'p', B)), ((u'p', A), (u'q', A)), ((u'ns1', B),), ((u'', A), (u'p', A)))
NSATTRS = ((), (((NO, u'a'), u'1'),), (((A, u'a'), u'2'),), (((NO, u'a'), u'1'), ((A, u'a'), u'2'), ((B, u'a'), u'3')), (((XML, u'lang'), u'en'), ((B, u'b'), u'<"')))


def ns_trees(ctx):
    for n1 in (None, A, B):
        for d1 in DECLARED:
            for a1 in NSATTRS:
                yield (n1, u'r', d1, a1, ()), ('unicode', 'str', 'root')
                for n2 in (None, A, B):
                    for d2 in DECLARED:
                        for a2 in NSATTRS if ctx.thorough else NSATTRS[:4:3] if a1 else NSATTRS:
                            yield (n1, u'r', d1, a1, ((n2, u'c', d2, a2, (u' t ',)),)), ('unicode',)
    decls = DECLARED if ctx.thorough else DECLARED[:5]
    for n1, n2, n3 in itertools.product((None, A, B), repeat=3):
        for d1, d2, d3 in itertools.product(decls, repeat=3):
            for a3 in NSATTRS[:4:3] if ctx.thorough else NSATTRS[3:4]:
                yield (n1, u'r', d1, (), ((n2, u'c', d2, (), ((n3, u'd', d3, a3, ()),)), (n3, u'e', (), (), ()))), ('unicode',)


# --- reading documents with namespaces

# (the JDK accepts empty prefixes, as in :a)
DECLS = (u'xmlns="A"', u'xmlns=""', u'xmlns:p="A"', u'xmlns:p="B"', u'xmlns:q="A"', u'xmlns:p=""', u'xmlns:xml="X"', u'xmlns:xml="%s"' % XML, u'xmlns:xmlns="A"', u'xmlns="%s"' % XML,
         u'xmlns:p="http://www.w3.org/2000/xmlns/"', u'xmlnsx="1"', u'xmlns:="A"')
ATTRS = (u'a="1"', u'p:a="1"', u'q:a="2"', u'xml:lang="en"', u'p:b:c="1"', u'a:="1"', u'p:1="1"')
NAMES = (u'r', u'p:r', u'q:r', u'xml:r', u'xmlns:r', u'p:q:r', u'r:', u'xmlr')
CHILDREN = [u''] + [u'<%s%s/>' % (n, a) for n in (u'r', u'p:r', u'q:r') for a in (u'', u' xmlns=""', u' xmlns="B"', u' xmlns:p="B"', u' p:a="1" a="1"', u' xmlns:q="A" p:a="" q:a=""')] + [
    u'<p:r></q:r>', u'<r></p:r>', u'<p:r></p:r>', u'<q:r xmlns:q="A"></q:r>', u'<r xmlns="A"><r/></r>', u'<r xmlns=""><r/></r>', u'<p:r xmlns:p="B"><p:r/></p:r>', u'<p:r/><r xmlns="B"/><r/>']


def ns_documents(ctx):
    toks = DECLS + ATTRS
    for n in NAMES:
        for k in range(3):
            for t in itertools.combinations(toks, k):
                for c in CHILDREN if n in (u'r', u'p:r') or ctx.thorough else CHILDREN[:3]:
                    yield u'<%s%s>%s</%s>' % (n, u''.join([u' ' + x for x in t]), c, n)
    for t in itertools.permutations((u'xmlns="A"', u'xmlns:p="A"', u'xmlns:p="B"', u'xmlns:q="B"', u'p:a="1"', u'q:a="1"', u'a="1"'), 3):
        for end in (u'/>', u'></r>'):
            yield u'<r%s%s' % (u''.join([u' ' + x for x in t]), end)


def nsread(ctx, src):
    ctx.case({'kind': 'nsread', 'src': repr(src)})
    want, why = reference(src, True)
    if want is None and 'for attribute' in why and 'is not bound' in why:
        # the library tolerates these (test_odata2_csdl relies on it)
        return
    try:
        d = xmlns.XMLNSDocument()
        try:
            d.Read(src=src)
            got, err = fromlib(d.root), None
        except (xml.XMLError, UnicodeError), e:
            got, err = None, '%s: %s' % (e.__class__.__name__, e)
        p = xmlns.XMLNSParser(xml.XMLEntity(src))
        try:
            p.ParseDocument()
            got2 = fromlib(p.doc.root)
        except (xml.XMLError, UnicodeError), e:
            got2 = None
    except mclib.StopExploring:
        raise
    except:
        ctx.violation('nsread: %r' % src, traceback.format_exc()[-1500:])
        return
    ctx.transitions += 1
    ctx.outcome((got, want))
    if want is not None:
        want = fromref(want)
    if want != got:
        ctx.violation('nsread: %r' % src, 'read as   %r (%s)\nshould be %r (%s)' % (got, err, want, why))
    elif got2 != got:
        ctx.violation('nsread: %r' % src, 'read as %r by the document, as %r by the parser' % (got, got2))


# --- comparison is a total order that agrees with the content

SMALL = [('r', a, k) for a in ((), (('a', u'1'),), (('a', u'2'),), (('b', u'1'),), (('a', u'1'), ('b', u'1'))) for k in ((), (u'x',), (u'y',), (u' x',), (('b', (), ()),), (('c', (), ()),), (u'x', ('b', (), ())), (('b', (), ()), u'x'),
                                                                                                           (('b', (), ()), ('b', (), ())), (('b', (), (u'x',)),))]


def compare(ctx):
    ds = []
    for t in SMALL + [('s', (), ())]:
        d = Doc()
        build(d, t)
        ds.append((t, d.root, normal(t)))
    for t1, e1, n1 in ds:
        for t2, e2, n2 in ds:
            if not ctx.mine():
                continue
            ctx.case({'kind': 'compare'})
            c = cmp(e1, e2)
            if (c == 0) != (n1 == n2) or cmp(e2, e1) != -c or (e1 == e2) != (n1 == n2):
                ctx.violation('compare: %r %r' % (t1, t2), 'compare as %r and %r' % (c, cmp(e2, e1)))
            ctx.transitions += 1
            if c > 0:
                continue
            for t3, e3, n3 in ds:
                if cmp(e2, e3) <= 0 and cmp(e1, e3) > 0:
                    ctx.violation('compare: %r %r %r' % (t1, t2, t3), 'order is not transitive')


def one(ctx, kind, tree, forms, scratch):
    ctx.case({'kind': kind, 'tree': repr(tree), 'forms': list(forms)})
    if kind == 'ns':
        roundtrip(ctx, tree, NSDoc, nsbuild, normal(nstree(tree), False, True), forms, scratch, True, 'ns: ')
    else:
        roundtrip(ctx, tree, Doc, build, normal(tree), forms, scratch, False, kind + ': ')


def explore(ctx):
    ctx.case_limit = 30
    scratch = tempfile.mkdtemp('.d', 'c09-')
    try:
        compare(ctx)
        for kind, tree, forms in plain_trees(ctx):
            if ctx.mine():
                if ctx.state((kind, tree)):
                    one(ctx, kind, tree, forms, scratch)
        for tree, forms in ns_trees(ctx):
            if ctx.mine():
                if ctx.state(('ns', tree)):
                    one(ctx, 'ns', tree, forms, scratch)
        for src in ns_documents(ctx):
            if ctx.mine():
                if ctx.state(src):
                    nsread(ctx, src)
    finally:
        shutil.rmtree(scratch)


def replay(ctx, case):
    if case['kind'] == 'nsread':
        nsread(ctx, eval(case['src']))
    elif case['kind'] == 'compare':
        ctx.shard, ctx.nshards = 0, 1
        compare(ctx)
    else:
        scratch = tempfile.mkdtemp('.d', 'c09-')
        try:
            one(ctx, case['kind'], eval(case['tree']), case['forms'], scratch)
        finally:
            shutil.rmtree(scratch)
