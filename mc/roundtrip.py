# -*- coding: utf-8 -*-
"""Every construct of a document format, described by a DTD, is read and written back: nothing in it is lost,
reordered, renamed or changed, and what was written reads back as the same document again."""
import re
import dtdgen
import mclib

TEXTS = [u'x', u'a &amp; &lt;b&gt; "c" \'d\'', u'  two  spaces\n and a line ', u'\u00e9\u4e2d\U00010384', u'&#9;&#13;', u']]&gt;', u'<![CDATA[<x>&amp;]]>']
VALUES = [u'a &amp; &lt;b&gt; &quot;c&quot; \'d\'', u'\u00e9\u4e2d\U00010384', u'  two  spaces ']


class Format(object):
    """what differs between formats: override as needed"""
    ns = None           # the namespace of its elements
    decl = ''           # the namespace declaration to put on the root
    any = ('unheard-of',)
    roots = None        # the elements that can be roots: all, if None
    free = ()           # (element, attribute) pairs that take any text

    def __init__(self, text):
        self.dtd = dtdgen.DTD(text)
        self.dtd.any = self.any
        self.writer = dtdgen.Writer(self.dtd, self.text, self.value, self.decl)

    def text(self, name):
        return 'Text &amp; more'

    def texts(self, name):
        """other texts for an element's character data"""
        return TEXTS

    def value(self, name, attr, kind):
        return kind[0] if isinstance(kind, list) else 'v1'

    def values(self, name, attr, kind):
        """the values of an attribute to try"""
        if isinstance(kind, list):
            return kind
        v = self.value(name, attr, kind)
        return [v] + (VALUES if v == 'v1' and kind == 'CDATA' else [])

    def skip(self, name, attr, kind):
        return kind in ('ENTITY', 'ENTITIES')

    def read(self, data):
        """a document object"""

    def write(self, doc):
        return unicode(doc)

    def refuses(self, data, failure):
        """True if refusing to read data is right"""
        return False

    def normal(self, tree):
        """the canonical form with liberties that are documented taken out"""
        return tree

    def spaced(self, tree, preserve=False):
        """White space is collapsed, and stripped at either end of an element, unless it is to be preserved"""
        name, attrs, children = tree
        attrs = tuple(attrs)
        preserve = dict(attrs).get('xml:space', 'preserve' if preserve else 'default') == 'preserve'
        out = []
        for c in children:
            if not isinstance(c, basestring):
                out.append(self.spaced(c, preserve))
            elif preserve:
                out.append(c)
            elif self.collapse(c):
                out.append(self.collapse(c))
        if not preserve:
            if out and isinstance(out[0], basestring):
                out[0] = out[0].lstrip(' ')
            if out and isinstance(out[-1], basestring):
                out[-1] = out[-1].rstrip(' ')
        return (name, attrs, [c for c in out if c != ''])

    def collapse(self, text):
        return re.sub(u'[ \t\r\n]+', u' ', text)

    def wrap(self, name, xml):
        """(document, in which the element is somewhere)"""
        return xml

    def canonical(self, data):
        return self.spaced(self.normal(dtdgen.canonical(data, self.dtd, self.ns)))

    def difference(self, a, b):
        return dtdgen.difference(self.canonical(a), self.canonical(b))


def cases(f, name, thorough):
    d, w = f.dtd, f.writer
    m = d.models[name]
    root = f.roots is None or name in f.roots
    for c in d.contents(m, 3 if thorough else 2):
        yield 'content', w.element(name, c, root=root)
    attrs = [(a, k) for a, k, default in d.attrs[name] if not f.skip(name, a, k)]
    every = {}
    for a, k in attrs:
        vs = f.values(name, a, k)
        every[a] = vs[-1]
        for v in vs:
            yield 'attribute ' + a, w.element(name, chosen={a: v}, root=root)
    if len(every) > 1:
        yield 'all attributes', w.element(name, chosen=every, root=root)
    if thorough:
        for i, (a, k) in enumerate(attrs):
            for b, l in attrs[:i]:
                yield 'attributes', w.element(name, chosen={a: f.values(name, a, k)[0], b: f.values(name, b, l)[0]}, root=root)
    if m == 'ANY' or m[0] == 'mixed' and m != 'EMPTY':
        for t in f.texts(name):
            yield 'text', w.element(name, text=t, root=root)
            if 'xml:space' in [a for a, k in attrs]:
                yield 'text preserved', w.element(name, chosen={'xml:space': 'preserve'}, text=t, root=root)
        if m[0] == 'mixed' and m[1]:
            for t in f.texts(name):
                yield 'text', w.element(name, [m[1][0], m[1][-1]], text=t, root=root)


def attempt(fn, *args):
    try:
        return fn(*args), None
    except mclib.StopExploring:
        raise
    except:
        import sys
        e = sys.exc_info()[1]
        return None, '%s: %s' % (e.__class__.__name__, mclib.short(unicode(e)) if not isinstance(e, Exception) else e)


def check(ctx, f, name, what, data):
    key = 'lost|%s|%s|%s' % (name, what, data)
    ctx.transitions += 2
    doc, fail = attempt(f.read, data.encode('utf-8'))
    if fail:
        ctx.outcome((name, what, 'refused'))
        ctx.check(f.refuses(data, fail), key, '%s cannot be read: %s' % (data, fail))
        return
    out, fail = attempt(f.write, doc)
    ctx.outcome((name, what, fail is None))
    if not ctx.check(fail is None, key, '%s cannot be written: %s' % (data, fail)):
        return
    diff, fail = attempt(f.difference, data, out)
    if not ctx.check(not diff and not fail, key, '%s is written as %s: %s' % (data, out, diff or fail)):
        return
    again, fail = attempt(lambda: f.write(f.read(out.encode('utf-8'))))
    ctx.check(fail is None and not f.difference(out, again), key, '%s, written as %s, is then %s' % (data, out, fail or again))


def explore(ctx, f):
    d = f.dtd
    ctx.bounds['element types'] = len(d.order)
    total = 0
    for name in d.order:
        for what, xml in cases(f, name, ctx.thorough):
            total += 1
            if not ctx.mine():
                continue
            ctx.case({'element': name, 'what': what, 'document': xml})
            ctx.state((name, what, xml))
            check(ctx, f, name, what, f.wrap(name, xml))
    ctx.bounds['documents'] = total


def replay(ctx, f, case):
    ctx.case(case)
    check(ctx, f, case['element'], case['what'], f.wrap(case['element'], case['document']))
