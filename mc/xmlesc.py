"""Escaping for XML (the JVM's Jython has no working xml.sax)."""


class saxutils(object):

    @staticmethod
    def escape(s):
        return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')

    @staticmethod
    def quoteattr(s):
        return '"%s"' % saxutils.escape(s).replace('"', '&quot;')
