# -*- coding: utf-8 -*-
"""Documents generated from a DTD: every element type, every arrangement of its children and every value
of its attributes, within bounds on repetition; and the canonical form of a document, read with the JDK's
parser, in which a document that was written back can be compared with the one that was read."""
import re
import jarray
from javax.xml.stream import XMLInputFactory, XMLStreamConstants as X
from java.io import ByteArrayInputStream

_factory = XMLInputFactory.newInstance()
_factory.setProperty(XMLInputFactory.IS_COALESCING, True)
_factory.setProperty(XMLInputFactory.SUPPORT_DTD, False)
XMLNS = 'http://www.w3.org/XML/1998/namespace'


class Model(object):
    """a content model: 'EMPTY', 'ANY', ('mixed', names) or ('seq'|'alt'|'el', items, occurs)"""


def tokens(s):
    return re.findall(r'[(),|]|[?*+]|#?[\w:.-]+', s)


def parse_model(text):
    text = text.strip()
    if text in ('EMPTY', 'ANY'):
        return text
    toks = tokens(text)
    if '#PCDATA' in toks:
        return ('mixed', [t for t in toks if t not in '(|)*' and t != '#PCDATA'])
    pos = [0]

    def occurs():
        if pos[0] < len(toks) and toks[pos[0]] in '?*+':
            pos[0] += 1
            return toks[pos[0] - 1]
        return ''

    def particle():
        if toks[pos[0]] == '(':
            pos[0] += 1
            items, sep = [particle()], None
            while toks[pos[0]] != ')':
                sep = toks[pos[0]]
                pos[0] += 1
                items.append(particle())
            pos[0] += 1
            return ('alt' if sep == '|' else 'seq', items, occurs())
        name = toks[pos[0]]
        pos[0] += 1
        return ('el', name, occurs())
    return particle()


class DTD(object):
    any = ('unheard-of',)       # what to put in elements that can contain anything

    def __init__(self, text):
        text = re.sub(r'(?s)<!--.*?-->', '', text)
        entities = {}
        for name, value in re.findall(r'(?s)<!ENTITY\s+%\s+([\w.-]+)\s+"(.*?)"\s*>', text):
            entities[name] = value
        text = re.sub(r'(?s)<!ENTITY.*?>', '', text)
        while re.search(r'%([\w.-]+);', text):
            text = re.sub(r'%([\w.-]+);', lambda m: entities[m.group(1)], text)
        self.models, self.attrs, self.order = {}, {}, []
        for name, model in re.findall(r'(?s)<!ELEMENT\s+([\w:.-]+)\s+(.*?)\s*>', text):
            self.models[name] = parse_model(model)
            self.attrs.setdefault(name, [])
            self.order.append(name)
        for name, body in re.findall(r'(?s)<!ATTLIST\s+([\w:.-]+)\s+(.*?)>', text):
            for a in re.findall(r"""(?s)([\w:.-]+)\s+(\([^)]*\)|\w+)\s+(#REQUIRED|#IMPLIED|#FIXED\s+'[^']*'|'[^']*'|"[^"]*")""", body):
                kind = [v.strip() for v in a[1][1:-1].split('|')] if a[1][0] == '(' else a[1]
                default = a[2]
                self.attrs.setdefault(name, []).append((a[0], kind, default[1:-1] if default[0] in '\'"' else default))
        self.depth = {}
        changed = True
        while changed:
            changed = False
            for name in self.order:
                d = self._min(self.models[name])
                if d is not None and self.depth.get(name, 99) > d[0] + 1:
                    self.depth[name] = d[0] + 1
                    changed = True

    def _min(self, m):
        """(depth, names) of the shallowest content of a model, or None"""
        if m in ('EMPTY', 'ANY') or m[0] == 'mixed':
            return (0, [])
        if m[2] in ('?', '*') and m[2]:
            return (0, [])
        if m[0] == 'el':
            return (self.depth[m[1]], [m[1]]) if m[1] in self.depth else None
        parts = [self._min(i) for i in m[1]]
        if m[0] == 'alt':
            parts = [p for p in parts if p is not None]
            return min(parts, key=lambda p: (p[0], len(p[1]))) if parts else None
        if None in parts:
            return None
        return (max([0] + [p[0] for p in parts]), sum([p[1] for p in parts], []))

    def least(self, name):
        return self._min(self.models[name])[1]

    def contents(self, m, most=2):
        """the arrangements of children a model permits: each particle in turn takes each of its forms
        while the others take their shortest; a repeated choice takes every pair of alternatives"""
        if m == 'EMPTY':
            return [[]]
        if m == 'ANY':
            return [[]] + [[n] for n in self.any]
        if m[0] == 'mixed':
            return [[]] + [[n] for n in m[1]] + ([[a, b] for a in m[1] for b in m[1]] if most > 1 else [])
        if m[0] == 'el':
            once = [[m[1]]]
        elif m[0] == 'alt':
            once = sum([self.contents(i, most) for i in m[1]], [])
        else:
            mins = [self._min(i)[1] for i in m[1]]
            forms = [self.contents(i, most) for i in m[1]]
            once = [sum(mins, [])]
            for k, f in enumerate(forms):
                for c in f:
                    if c != mins[k]:
                        once.append(sum(mins[:k], []) + c + sum(mins[k + 1:], []))
            # every pair of particles takes its longest simple form: order between them is kept
            longest = [max(f, key=lambda c: (len(c) < 3, len(c))) for f in forms]
            for i in range(len(forms)):
                for j in range(i + 1, len(forms)):
                    once.append(sum([longest[k] if k in (i, j) else mins[k] for k in range(len(forms))], []))
            once.append(sum(longest, []))
        out = []
        if m[2] in ('?', '*') and m[2]:
            out.append([])
        out += once
        if m[2] in ('*', '+') and m[2] and most > 1:
            short = [c for c in once if len(c) <= 2]
            out += [a + b for a in short for b in short]
            if m[0] != 'el':
                out += [c + c for c in once if len(c) > 2]
            elif most > 2:
                out.append([m[1]] * 3)
        seen, result = set(), []
        for c in out:
            if tuple(c) not in seen:
                seen.add(tuple(c))
                result.append(c)
        return result


class Writer(object):
    """the text of generated elements; text(name) and value(element, attribute, kind) give the data to use"""

    def __init__(self, dtd, text, value, ns='', skip=(), required=None):
        self.dtd, self.text, self.value, self.ns, self.skip = dtd, text, value, ns, skip
        self.fixed = required or {}

    def attributes(self, name, chosen):
        out = []
        for a, kind, default in self.dtd.attrs[name]:
            if (a in chosen):
                out.append((a, chosen[a]))
            elif default == '#REQUIRED':
                out.append((a, self.value(name, a, kind)))
        return ''.join(' %s="%s"' % (a, v) for a, v in out)

    def element(self, name, children=None, chosen={}, root=False, text=None):
        if name not in self.dtd.models:
            return '<%s>in it</%s>' % (name, name)
        m = self.dtd.models[name]
        if children is None:
            children = self.dtd.least(name)
        body = [self.element(c) for c in children]
        if m == 'ANY' or m[0] == 'mixed' and m != 'EMPTY':
            t = self.text(name) if text is None else text
            body = t + t.join(body) + (t if body else '')
        else:
            body = ''.join(body)
        tag = '%s%s%s' % (name, ' ' + self.ns if root and self.ns else '', self.attributes(name, chosen))
        return '<%s>%s</%s>' % (tag, body, name) if body else '<%s/>' % tag


def canonical(data, dtd, ns=None):
    """nested (name, attributes, children) of a document; white space is dropped from element content
    and attributes with their default value are dropped"""
    if isinstance(data, unicode):
        data = data.encode('utf-8')
    r = _factory.createXMLStreamReader(ByteArrayInputStream(jarray.array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in data], 'b')))
    stack, root = [], None
    while r.hasNext():
        e = r.next()
        if e == X.START_ELEMENT:
            name = r.getLocalName()
            if (r.getNamespaceURI() or None) != ns:
                name = '{%s}%s' % (r.getNamespaceURI(), name)
            defaults = dict((a, d) for a, k, d in dtd.attrs.get(name, []))
            attrs = []
            for i in range(r.getAttributeCount()):
                n = r.getAttributeLocalName(i)
                if r.getAttributeNamespace(i) == XMLNS:
                    n = 'xml:' + n
                elif r.getAttributeNamespace(i):
                    n = '{%s}%s' % (r.getAttributeNamespace(i), n)
                if n.startswith('{http://www.w3.org/2001/XMLSchema-instance}'):
                    continue
                v = r.getAttributeValue(i)
                if defaults.get(n) != v:
                    attrs.append((n, v))
            x = (name, tuple(sorted(attrs)), [])
            if stack:
                stack[-1][2].append(x)
            else:
                root = x
            stack.append(x)
        elif e == X.END_ELEMENT:
            stack.pop()
        elif e in (X.CHARACTERS, X.CDATA, X.SPACE):
            if stack:
                m = dtd.models.get(stack[-1][0], 'ANY')
                if m != 'ANY' and m[0] != 'mixed' and not r.getText().strip():
                    continue
                stack[-1][2].append(r.getText())
    return root


def difference(a, b, path=''):
    """where two canonical forms first differ, or None"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        here = path + '/' + a[0]
        if a[0] != b[0]:
            return '%s: element %s became %s' % (path, a[0], b[0])
        if a[1] != b[1]:
            return '%s: attributes %r became %r' % (here, dict(a[1]), dict(b[1]))
        for x, y in zip(a[2], b[2]):
            d = difference(x, y, here)
            if d:
                return d
        if len(a[2]) != len(b[2]):
            more = (a[2] + b[2][len(a[2]):])[min(len(a[2]), len(b[2]))] if len(a[2]) > len(b[2]) else b[2][len(a[2])]
            return '%s: %s %r' % (here, 'lost' if len(a[2]) > len(b[2]) else 'gained', more[0] if isinstance(more, tuple) else more)
        return None
    if a == b:
        return None
    return '%s: %r became %r' % (path, a if not isinstance(a, tuple) else a[0], b if not isinstance(b, tuple) else b[0])
