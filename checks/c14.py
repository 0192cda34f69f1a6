# -*- coding: utf-8 -*-
"""C14: QTI version 1 documents: every construct of the DTD is read and written back."""
import os
import StringIO
import roundtrip

import pyslet.imsqtiv1p2p1 as v1

NUMBERS = set('x0 y0 width height index rows columns maxchars maxnumber minnumber lowerbound upperbound step startval match_max'.split())
HERE = os.path.dirname(os.path.abspath(__file__))


class QTI1(roundtrip.Format):
    any = ('unheard-of', 'material', 'qticomment')

    def value(self, name, attr, kind):
        if isinstance(kind, list):
            return kind[0]
        if attr in NUMBERS:
            return '7'
        if attr == 'uri':
            return 'x.png'
        return 'v1'

    def values(self, name, attr, kind):
        if attr in NUMBERS:
            return ['7', '0', '-12']
        if attr == 'texttype':
            return ['text/plain', 'v1']
        return roundtrip.Format.values(self, name, attr, kind)

    def read(self, data):
        doc = v1.QTIDocument()
        doc.Read(src=StringIO.StringIO(data))
        return doc

    def refuses(self, data, failure):
        # a reference to material that is not there
        return failure.startswith('QTIError: Bad mat') and 'linkrefid' in data

    def normal(self, tree):
        name, attrs, children = tree
        children = [c if isinstance(c, basestring) else self.normal(c) for c in children]
        if name == 'outcomes':
            # documented: the declarations are written first
            children.sort(key=lambda c: {'qticomment': 0, 'decvar': 1}.get(c[0], 2))
        return (name, attrs, children)


def make():
    return QTI1(open(os.path.join(HERE, 'data', 'qtiv1.dtd')).read())


def explore(ctx):
    roundtrip.explore(ctx, make())


def replay(ctx, case):
    roundtrip.replay(ctx, make(), case)
