"""Builds small entity models (as CSDL text read by the code under test)."""
import mclib
import pyslet.odata2.edmx as edmx
import pyslet.odata2.csdl as edm

EDMX = '''<?xml version="1.0" encoding="utf-8"?>
<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
 xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<edmx:DataServices m:DataServiceVersion="2.0">
<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">%s</Schema>
</edmx:DataServices></edmx:Edmx>'''

MULT = {0: '0..1', 1: '1', 2: '*'}


class Model(object):
    """sets: name -> text of the properties (with <Key>) ; assocs: list of
    ((set,mult,nav),(set,mult,nav)) where nav is the name of the navigation property that
    leads from that end to the other one, or None."""

    def __init__(self, sets, assocs, extra='', set_attrs={}, functions=''):
        self.sets = sets
        self.assocs = assocs
        out = ['<EntityContainer Name="C" m:IsDefaultEntityContainer="true">']
        for s in sorted(sets):
            out.append('<EntitySet Name="%s" EntityType="M.%sT"/>' % (s, s))
        for i, (e0, e1) in enumerate(assocs):
            out.append('<AssociationSet Name="AS%i" Association="M.As%i"><End Role="R0" EntitySet="%s"/>'
                       '<End Role="R1" EntitySet="%s"/></AssociationSet>' % (i, i, e0[0], e1[0]))
        out.append(functions)
        out.append('</EntityContainer>')
        for s in sorted(sets):
            out.append('<EntityType Name="%sT" %s>%s' % (s, set_attrs.get(s, ''), sets[s]))
            for i, ends in enumerate(assocs):
                for side in (0, 1):
                    if ends[side][0] == s and ends[side][2]:
                        out.append('<NavigationProperty Name="%s" Relationship="M.As%i" FromRole="R%i" ToRole="R%i"/>'
                                   % (ends[side][2], i, side, 1 - side))
            out.append('</EntityType>')
        for i, ends in enumerate(assocs):
            out.append('<Association Name="As%i">' % i)
            for side in (0, 1):
                out.append('<End Role="R%i" Type="M.%sT" Multiplicity="%s"/>' % (side, ends[side][0], MULT[ends[side][1]]))
            out.append('</Association>')
        out.append(extra)
        self.text = EDMX % '\n'.join(out)

    def load(self, cls=edmx.Document):
        """cls: the document class; the server wants the one in odata2.metadata"""
        doc = cls()
        doc.Read(src=self.text)
        return doc

SIMPLE = '''<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>
<Property Name="V" Type="Edm.String" Nullable="true" MaxLength="20"/>'''


def fingerprint(obj, drop_empty=False):
    """A canonical form of everything reachable from obj except the metadata model,
    locks and functions.  It names no attribute, so it sees whatever hidden state the
    implementation keeps."""
    import types
    seen = {}

    def fp(o):
        if o is None or isinstance(o, (int, long, float, bool, str, unicode)):
            return repr(o)
        if isinstance(o, (tuple, list)):
            return '[' + ','.join([fp(x) for x in o]) + ']'
        if isinstance(o, (set, frozenset)):
            return '{' + ','.join(sorted([fp(x) for x in o])) + '}'
        if isinstance(o, dict):
            return "{" + ",".join(sorted([fp(k) + ":" + fp(v) for k, v in o.items() if not (drop_empty and isinstance(v, set) and not v)])) + "}"
        if isinstance(o, edm.CSDLElement):
            return '<%s>' % getattr(o, 'name', '')
        if isinstance(o, (types.FunctionType, types.MethodType, type)):
            return '<f>'
        if id(o) in seen:
            return '#%i' % seen[id(o)]
        seen[id(o)] = len(seen)
        mod = type(o).__module__
        if not mod.startswith('pyslet'):
            return '<%s>' % type(o).__name__
        d = getattr(o, '__dict__', None)
        if d is None:
            return '<%s>' % type(o).__name__
        return type(o).__name__ + '(' + ','.join(['%s=%s' % (k, fp(d[k])) for k in sorted(d.keys())]) + ')'
    return fp(obj)
