"""Every odata Parser instance builds its own character classes, which takes most of the
time of a request under Jython: let the instances share the ones the code built."""
import pyslet.odata2.core as odata


def install():
    p = odata.Parser("a")
    p.ParseSimpleIdentifier()
    for n in ('SimpleIdentifierStartClass', 'SimpleIdentifierClass'):
        if n in p.__dict__ and hasattr(odata.Parser, n):
            setattr(odata.Parser, n, p.__dict__[n])

install()
