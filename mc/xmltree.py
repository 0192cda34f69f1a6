"""An ElementTree-like view of documents parsed with the JDK's own XML parser, which is
independent of the code under test."""
from javax.xml.stream import XMLInputFactory, XMLStreamConstants as X
from java.io import ByteArrayInputStream
import jarray

_factory = XMLInputFactory.newInstance()
_factory.setProperty(XMLInputFactory.IS_COALESCING, True)
_factory.setProperty(XMLInputFactory.SUPPORT_DTD, False)


class Element(object):

    def __init__(self, tag):
        self.tag = tag
        self.attrs = {}
        self.children = []
        self.text = None

    def get(self, name, default=None):
        return self.attrs.get(name, default)

    def findall(self, tag):
        return [c for c in self.children if c.tag == tag]

    def find(self, tag):
        for c in self.children:
            if c.tag == tag:
                return c

    def __iter__(self):
        return iter(self.children)


def qname(ns, local):
    return '{%s}%s' % (ns, local) if ns else unicode(local)


def fromstring(data):
    if isinstance(data, unicode):
        data = data.encode('utf-8')
    r = _factory.createXMLStreamReader(ByteArrayInputStream(jarray.array([ord(c) - 256 if ord(c) > 127 else ord(c) for c in data], 'b')))
    stack, root = [], None
    while r.hasNext():
        e = r.next()
        if e == X.START_ELEMENT:
            x = Element(qname(r.getNamespaceURI(), r.getLocalName()))
            for i in range(r.getAttributeCount()):
                x.attrs[qname(r.getAttributeNamespace(i), r.getAttributeLocalName(i))] = r.getAttributeValue(i)
            if stack:
                stack[-1].children.append(x)
            else:
                root = x
            stack.append(x)
        elif e == X.END_ELEMENT:
            stack.pop()
        elif e in (X.CHARACTERS, X.CDATA, X.SPACE):
            if stack and not stack[-1].children:
                stack[-1].text = (stack[-1].text or u'') + r.getText()
    return root
