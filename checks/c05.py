# -*- coding: utf-8 -*-
"""C05: filter and order-by expressions.

Part 1 (grammar): every token sequence up to a length over an alphabet of operators,
brackets, operands and calls is given to the parser and to a reference parser written
from the published grammar.  Both must accept the same ones and, evaluated, give the same.
Part 2 (trees): every expression tree with up to n operators, written with the fewest
brackets, with all brackets and printed by the code itself, evaluates to the same
reference value.
Part 3 (operators and methods): every operator on every pair of values from a pool with
the boundaries of all types, every method on every tuple of arguments, every cast."""
import itertools
import decimal
import math
import mclib
import odfast
from odschema import Model
import pyslet.odata2.core as core
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.iso8601 as iso

D = decimal.Decimal
T = edm.SimpleType


class Bad(Exception):
    """The reference says that this expression has no value"""


class Unspecified(Exception):
    """The specification leaves it open: an error or nothing is claimed"""


# ------------------------------------------------------------------ reference evaluator
NUM = ['Double', 'Single', 'Decimal', 'Int64', 'Int32', 'Int16', 'SByte', 'Byte']
BIG = ('Double', 'Single', 'Decimal', 'Int64', 'Int32')
RANGE = {'Int32': 31, 'Int64': 63}
DMAX = D(10) ** 29 - 1


def promote(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return a or b
    if a not in NUM or b not in NUM:
        raise Bad
    if (a, b) in (('Byte', 'SByte'), ('SByte', 'Byte')):
        return 'Int16'
    return NUM[min(NUM.index(a), NUM.index(b))]


def conv(t, v):
    """v, of any numeric type, as a number of type t"""
    if v is None:
        return None
    if t in ('Double', 'Single'):
        r = float(v)
        if t == 'Single' and not math.isinf(r) and not math.isnan(r) and abs(r) > (2 - 2.0 ** -23) * 2.0 ** 127:
            raise Bad
        return r
    if t == 'Decimal':
        if isinstance(v, float):
            v = D(v)
        return D(v)
    if t in RANGE:
        v = int(v)
        if not -2 ** RANGE[t] <= v < 2 ** RANGE[t]:
            raise Bad
        return v
    return v


def finish(t, v):
    if t in ('Double', 'Single') or v is None:
        return conv(t, v)
    if t == 'Decimal' and abs(v) > DMAX:
        raise Bad
    return conv(t, v)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b):
    t = promote(a[0], b[0])
    if t is None:
        return ('Int32', None)
    if t in ('Int16', 'SByte', 'Byte'):
        raise Unspecified
    if t not in BIG:
        raise Bad
    x, y = conv(t, a[1]), conv(t, b[1])
    if x is None or y is None:
        return (t, None)
    isint = t in RANGE
    try:
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'div':
            r = tdiv(x, y) if isint else x / y
        elif isint:
            r = x - y * tdiv(x, y)
        elif t == 'Decimal':
            r = x % y
        else:
            r = math.fmod(x, y)
    except (ZeroDivisionError, decimal.InvalidOperation, ValueError, OverflowError):
        raise Bad
    return (t, finish(t, r))


EQ = BIG + ('String', 'DateTime', 'Guid', 'Binary')
REL = BIG + ('String', 'DateTime', 'Guid')


def relation(op, a, b):
    if a[0] == 'Entity' or b[0] == 'Entity':
        if op in ('eq', 'ne') and a[0] == b[0]:
            return ('Boolean', (a[1] == b[1]) == (op == 'eq'))
        raise Bad
    t = promote(a[0], b[0])
    eq = op in ('eq', 'ne')
    if t in ('Int16', 'SByte', 'Byte', 'Boolean', 'Time', 'DateTimeOffset') or (t == 'Binary' and not eq):
        raise Unspecified
    if t is not None and t not in (EQ if eq else REL):
        raise Bad
    x, y = a[1], b[1]
    if t in NUM:
        x, y = conv(t, x), conv(t, y)
    if eq:
        if x is None or y is None:
            r = x is None and y is None
        else:
            r = x == y
        return ('Boolean', r == (op == 'eq'))
    if x is None or y is None:
        return ('Boolean', False)
    return ('Boolean', {'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[op])


def logic(op, a, b):
    t = promote(a[0], b[0]) if 'Entity' not in (a[0], b[0]) else 'Entity'
    if t not in ('Boolean', None):
        raise Bad
    if a[1] is None or b[1] is None:
        return ('Boolean', False)
    return ('Boolean', (a[1] and b[1]) if op == 'and' else (a[1] or b[1]))


def unary(op, a):
    t, v = a
    if op == 'not':
        if t == 'Boolean':
            return ('Boolean', None if v is None else not v)
        if v is None and t != 'Entity':
            return ('Boolean', None)
        raise Bad
    if t is None:
        return ('Int32', None)
    if t in ('Int16', 'Byte', 'SByte'):
        t = 'Int32'
    if t == 'Single':
        t = 'Double'
    if t not in BIG:
        raise Bad
    return (t, None if v is None else finish(t, 0 - v))


def param(a, t):
    if a[0] == t or a[0] is None:
        return a[1]
    raise Bad


def method(name, args):
    n = len(args)
    want = {'endswith': 2, 'indexof': 2, 'replace': 3, 'startswith': 2, 'substringof': 2, 'concat': 2}.get(name, 1)
    if name == 'substring':
        if n not in (2, 3):
            raise Bad
    elif n != want:
        raise Bad
    if name in ('endswith', 'startswith', 'indexof', 'substringof', 'replace', 'tolower', 'toupper', 'trim'):
        s = [param(a, 'String') for a in args]
        t = {'endswith': 'Boolean', 'startswith': 'Boolean', 'substringof': 'Boolean', 'indexof': 'Int32'}.get(name, 'String')
        if None in s:
            return (t, None)
        if name == 'endswith':
            r = s[0][len(s[0]) - len(s[1]):] == s[1] if len(s[1]) <= len(s[0]) else False
        elif name == 'startswith':
            r = s[0][:len(s[1])] == s[1]
        elif name == 'indexof':
            r = s[0].find(s[1])
        elif name == 'substringof':
            r = s[0] in s[1]
        elif name == 'replace':
            if s[1] == '':
                raise Unspecified
            r = s[2].join(s[0].split(s[1]))
        elif name == 'tolower':
            r = s[0].lower()
        elif name == 'toupper':
            r = s[0].upper()
        else:
            r = s[0].strip()
        return (t, r)
    if name in ('concat', 'length', 'substring') or name in DATE:
        # an untyped null here: an error or a null
        types = ['DateTime'] if name in DATE else ['String', 'Int32', 'Int32'] if name == 'substring' else ['String'] * n
        for a, t in zip(args, types):
            if a[0] is not None and a[0] != t:
                raise Bad
        vals = [a[1] for a in args]
        t = 'Int32' if name not in ('concat', 'substring') else 'String'
        if None in [a[0] for a in args]:
            raise Unspecified
        if None in vals[:2]:
            return (t, None)
        if name == 'concat':
            return (t, vals[0] + vals[1])
        if name == 'length':
            return (t, len(vals[0]))
        if name == 'substring':
            if vals[1] < 0 or (n == 3 and (vals[2] is None or vals[2] < 0)):
                raise Unspecified
            s = vals[0][vals[1]:]
            return (t, s if n == 2 else s[:vals[2]])
        return (t, int(vals[0][DATE.index(name)]))
    # round floor ceiling
    t, v = args[0]
    if t == 'Byte' or t == 'SByte':
        raise Unspecified
    if t in (None, 'Decimal', 'Int64', 'Int32', 'Int16'):
        if v is None:
            return ('Decimal', None)
        v = D(v)
        f = math_floor(v)
        if name == 'floor':
            r = f
        elif name == 'ceiling':
            r = f if f == v else f + 1
        else:
            r = math_floor(v + D('0.5')) if v >= 0 else -math_floor(-v + D('0.5'))
        return ('Decimal', r)
    if t in ('Double', 'Single'):
        if v is None:
            return ('Double', None)
        if math.isnan(v) or math.isinf(v):
            return ('Double', v)
        f = math.floor(v)
        if name == 'floor':
            r = f
        elif name == 'ceiling':
            r = f if f == v else f + 1
        elif v - f == 0.5:
            r = f if f % 2 == 0 else f + 1
        else:
            r = f if v - f < 0.5 else f + 1
        return ('Double', r)
    raise Bad


def math_floor(v):
    i = D(int(v))
    return i if i <= v else i - 1


DATE = ['year', 'month', 'day', 'hour', 'minute', 'second']
METHODS = ['endswith', 'indexof', 'replace', 'startswith', 'tolower', 'toupper', 'trim', 'substring', 'substringof',
           'concat', 'length', 'round', 'floor', 'ceiling'] + DATE
ALLTYPES = ['Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Time', 'Decimal', 'Double', 'Single', 'Guid',
            'Int16', 'Int32', 'Int64', 'String', 'SByte']


def isof(a, name):
    t, v = a
    if t == 'Entity':
        return ('Boolean', name == 'M.AT')
    if v is None:
        return ('Boolean', False)
    if name not in ['Edm.' + x for x in ALLTYPES]:
        raise Bad
    try:
        return ('Boolean', promote(t, name[4:]) == name[4:])
    except Bad:
        return ('Boolean', False)


def cast(a, name):
    t, v = a
    if t == 'Entity':
        if name == 'M.AT':
            return a
        raise Bad
    known = name in ['Edm.' + x for x in ALLTYPES]
    if v is None:
        return (name[4:] if known else None, None)
    if not known or promote(t, name[4:]) != name[4:]:
        raise Bad
    t2 = name[4:]
    return (t2, conv(t2, v) if t2 in BIG else v)


# ------------------------------------------------------------------ expressions
# ('lit',text,type,value) ('prop',name) ('un',op,e) ('bin',op,l,r) ('call',name,args) ('isof'|'cast',e or None,name)
PREC = {'or': 2, 'and': 3, 'eq': 4, 'ne': 4, 'lt': 5, 'gt': 5, 'le': 5, 'ge': 5, 'isof': 5, 'add': 6, 'sub': 6, 'mul': 7,
        'div': 7, 'mod': 7, '-': 8, 'not': 8, '/': 9}


def ev(e, ctx):
    k = e[0]
    if k == 'lit':
        return (e[2], e[3])
    if k == 'prop':
        if e[1] not in ctx:
            raise Bad
        return ctx[e[1]]
    if k == 'un':
        return unary(e[1], ev(e[2], ctx))
    if k == 'call':
        return method(e[1], [ev(x, ctx) for x in e[2]])
    if k in ('isof', 'cast'):
        a = ('Entity', 'self') if e[1] is None else ev(e[1], ctx)
        return (isof if k == 'isof' else cast)(a, e[2])
    op = e[1]
    if op == '/':
        l = ev(e[2], ctx)
        if e[3][0] != 'prop':
            raise Unspecified
        if l[0] in ('Entity', 'Complex') and isinstance(l[1], dict):
            return ev(e[3], l[1])
        if l == (None, None):
            # beyond a link that leads nowhere: null
            return (None, None)
        raise Bad
    a, b = ev(e[2], ctx), ev(e[3], ctx)
    if 'Complex' in (a[0], b[0]):
        raise Bad
    if op in ('and', 'or'):
        return logic(op, a, b)
    if op in ('add', 'sub', 'mul', 'div', 'mod'):
        if 'Entity' in (a[0], b[0]):
            raise Bad
        return arith(op, a, b)
    return relation(op, a, b)


def prec(e):
    return PREC[e[1]] if e[0] in ('un', 'bin') else 10


def show(e, full):
    """The text of e, with the fewest brackets or all of them"""
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'prop':
        return e[1]
    if k == 'call':
        return '%s(%s)' % (e[1], ','.join([show(x, full) for x in e[2]]))
    if k in ('isof', 'cast'):
        return "%s(%s'%s')" % (k, '' if e[1] is None else show(e[1], full) + ',', e[2])

    def sub(x, weaker):
        s = show(x, full)
        return '(%s)' % s if (full and x[0] in ('un', 'bin')) or weaker else s
    if k == 'un':
        x = e[2]
        s = sub(x, prec(x) < PREC[e[1]])
        return ('- ' if e[1] == '-' else 'not ') + s
    l, r = e[2], e[3]
    return sub(l, prec(l) < PREC[e[1]]) + ('/' if e[1] == '/' else ' %s ' % e[1]) + sub(r, prec(r) <= PREC[e[1]])


# ------------------------------------------------------------------ reference parser, over a list of tokens
class Syntax(Exception):
    pass


OPS = ('or', 'and', 'eq', 'ne', 'lt', 'gt', 'le', 'ge', 'add', 'sub', 'mul', 'div', 'mod', '/')


def parse(tokens, table):
    pos = [0]

    def peek():
        return tokens[pos[0]] if pos[0] < len(tokens) else None

    def take():
        t = peek()
        pos[0] += 1
        return t

    def expect(t):
        if take() != t:
            raise Syntax

    def operand():
        t = take()
        if t is None or t in (')', ',', '/'):
            raise Syntax
        if t == '(':
            e = binary(0)
            expect(')')
            return e
        if t in ('-', 'not'):
            return ('un', t, binary(PREC[t]))
        if t.endswith('('):
            args = [binary(0)]
            while peek() == ',':
                take()
                args.append(binary(0))
            expect(')')
            if t in ('isof(', 'cast('):
                if len(args) > 2 or args[-1][0] != 'lit' or args[-1][2] != 'String':
                    raise Syntax
                return (t[:-1], args[0] if len(args) == 2 else None, args[-1][3])
            return ('call', t[:-1], args)
        return table.get(t) or ('prop', t)

    def binary(level):
        l = operand()
        while True:
            op = peek()
            if op not in OPS or PREC[op] <= level:
                return l
            take()
            l = ('bin', op, l, binary(PREC[op]))
    e = binary(0)
    if peek() is not None:
        raise Syntax
    return e


# ------------------------------------------------------------------ the real thing
def model():
    props = ['<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>']
    for t in ALLTYPES:
        props.append('<Property Name="p%s" Type="Edm.%s" Nullable="true"/>' % (t, t))
    for n in ('Time', 'Guid', 'DateTime', 'DateTimeOffset', 'Binary', 'X'):
        props.append('<Property Name="%s" Type="Edm.String" Nullable="true"/>' % n)
    props.append('<Property Name="C" Type="M.CT" Nullable="false"/>')
    extra = ('<ComplexType Name="CT"><Property Name="S" Type="Edm.String" Nullable="true"/>'
             '<Property Name="I" Type="Edm.Int32" Nullable="true"/></ComplexType>')
    return Model({'A': ''.join(props), 'B': '<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" '
                  'Nullable="false"/><Property Name="S" Type="Edm.String" Nullable="true"/>'},
                 [(('A', 2, 'n'), ('B', 0, 'm')), (('A', 2, 'o'), ('B', 0, 'l'))], extra)


def py(t, v):
    """The value the code under test keeps for (t,v)"""
    if v is None:
        return None
    if t == 'DateTime':
        return tp(v)
    if t == 'Guid':
        import uuid
        return uuid.UUID(int=v)
    return v


def tp(v):
    return iso.TimePoint(date=iso.Date(century=v[0] // 100, year=v[0] % 100, month=v[1], day=v[2]),
                         time=iso.Time(hour=v[3], minute=v[4], second=v[5], zDirection=None))


class World(object):

    def __init__(self):
        doc = model().load()
        self.container = doc.root.DataServices['M.C']
        memds.InMemoryEntityContainer(self.container)
        self.a = self.container['A']
        self.linked = edm.Entity   # placeholder
        with self.container['B'].OpenCollection() as coll:
            b = coll.NewEntity()
            b['K'].SetFromValue(7)
            b['S'].SetFromValue(u'bs')
            coll.InsertEntity(b)
        with self.a.OpenCollection() as coll:
            e = coll.NewEntity()
            e['K'].SetFromValue(3)
            e['C']['S'].SetFromValue(u'cs')
            e['C']['I'].SetFromValue(5)
            e['X'].SetFromValue(u'x')
            e['Time'].SetFromValue(u't')
            e['n'].BindEntity(b)
            coll.InsertEntity(e)
        self.e = e
        B = ('Entity', {'K': ('Int32', 7), 'S': ('String', u'bs')})
        self.ctx = {'K': ('Int32', 3), 'C': ('Complex', {'S': ('String', u'cs'), 'I': ('Int32', 5)}),
                    'n': B, 'o': (None, None)}
        for t in ALLTYPES:
            self.ctx['p' + t] = (t, None)
        for n in ('Time', 'Guid', 'DateTime', 'DateTimeOffset', 'Binary', 'X'):
            self.ctx[n] = ('String', {'X': u'x', 'Time': u't'}.get(n))


CODE = dict((getattr(T, t), t) for t in ALLTYPES)


def result(v):
    """(type,value) of a value the code computed"""
    if isinstance(v, edm.Entity):
        return ('Entity', None)
    if isinstance(v, edm.Complex):
        return ('Complex', None)
    t = CODE.get(v.typeCode)
    x = v.value
    if x is None:
        return (t, None)
    if t == 'DateTime':
        x = (x.date.century * 100 + x.date.year, x.date.month, x.date.day, x.time.hour, x.time.minute, x.time.second)
    elif t == 'Guid':
        x = x.int
    return (t, x)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ('Entity', 'Complex'):
        return True
    x, y = a[1], b[1]
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True
    return type(x) is type(y) and x == y or (isinstance(x, (int, long)) and isinstance(y, (int, long)) and
                                              not isinstance(x, bool) and not isinstance(y, bool) and x == y) or x is y


def brief(r):
    return '%s %r' % r


def evaluate(ctx, world, expr, src, ref, loose=False):
    """Evaluates expr and compares with the reference.  loose: any exception counts as an error"""
    try:
        want = ev(ref, world.ctx)
    except Bad:
        want = None
    except Unspecified:
        want = 'any'
    try:
        got = result(expr.Evaluate(world.e))
    except (core.EvaluationError, ValueError) as x:
        got = None
    ctx.transitions += 1
    if want == 'any':
        return
    if want is None:
        if not ctx.check(got is None, 'value:%s' % src, '%s evaluates to %s, an error was expected' % (src, got and brief(got))):
            return
        ctx.outcome('error')
    else:
        ctx.check(got is not None and same(got, want), 'value:%s' % src,
                  '%s evaluates to %s, expected %s' % (src, got and brief(got), brief(want)))
        ctx.outcome(brief(want))


def try_parse(src):
    try:
        return core.CommonExpression.FromString(src)
    except ValueError:
        return None


def printed(ctx, world, expr, src, ref):
    try:
        text = unicode(expr)
    except Exception as x:
        ctx.violation('print:%s' % src, '%s cannot be printed: %r' % (src, x))
        return
    e2 = try_parse(text)
    if e2 is None:
        ctx.violation('reparse:%s' % src, '%s is printed as %s, which does not parse' % (src, text))
        return
    evaluate(ctx, world, e2, u'%s (printed form of %s)' % (text, src), ref)


# ------------------------------------------------------------------ part 1
LITS = {'1': ('lit', '1', 'Int32', 1), '7': ('lit', '7', 'Int32', 7), 'true': ('lit', 'true', 'Boolean', True),
        "'s'": ('lit', "'s'", 'String', u's'), "'Edm.Int64'": ('lit', "'Edm.Int64'", 'String', u'Edm.Int64'),
        'null': ('lit', 'null', None, None)}
ALPHABETS = [['1', '-', 'sub', 'mul', '(', ')', 'K', 'eq'],
             ['true', 'not', 'and', 'or', '(', ')', 'eq', '1'],
             ['K', "'s'", 'C', 'I', '/', 'n', 'eq', 'and', '-'],
             ["'s'", 'length(', 'substringof(', ',', ')', '(', 'add', 'eq', '1'],
             ["'Edm.Int64'", 'isof(', 'cast(', ',', ')', '1', '-', 'eq', 'sub'],
             ['null', 'lt', 'ge', '-', 'not', '1', 'or', 'X', 'Time']]


def grammar(ctx, world, tokens):
    src = ' '.join(tokens)
    try:
        ref = parse(tokens, LITS)
    except Syntax:
        ref = None
    got = try_parse(src)
    ctx.transitions += 1
    if ref is None:
        ctx.check(got is None, 'syntax:%s' % src, 'not an expression, but accepted: %s' % src)
        ctx.outcome('syntax error')
        return
    if not ctx.check(got is not None, 'syntax:%s' % src, 'a valid expression is refused: %s' % src):
        return
    ctx.state(src)
    evaluate(ctx, world, got, src, ref)
    printed(ctx, world, got, src, ref)


# ------------------------------------------------------------------ part 2
def shapes(n, leaves, unary_ops, binary_ops, call):
    """Every tree with exactly n operators; leaves are taken in turn from left to right"""
    if n == 0:
        yield 'L'
        return
    for op in unary_ops:
        for x in shapes(n - 1, leaves, unary_ops, binary_ops, call):
            yield ('un', op, x)
    for op in call:
        for x in shapes(n - 1, leaves, unary_ops, binary_ops, call):
            yield ('call', op, (x,))
    for op in binary_ops:
        for i in range(n):
            for l in shapes(i, leaves, unary_ops, binary_ops, call):
                for r in shapes(n - 1 - i, leaves, unary_ops, binary_ops, call):
                    yield ('bin', op, l, r)


def fill(t, leaves):
    """Replaces the leaves of a shape"""
    it = itertools.cycle(leaves)

    def f(t):
        if t == 'L':
            return next(it)
        if t[0] == 'un':
            return ('un', t[1], f(t[2]))
        if t[0] == 'call':
            return ('call', t[1], [f(x) for x in t[2]])
        return ('bin', t[1], f(t[2]), f(t[3]))
    return f(t)


def lit(text, t, v):
    return ('lit', text, t, v)


INTS = [lit('17', 'Int32', 17), lit('5', 'Int32', 5), lit('3', 'Int32', 3), lit('2', 'Int32', 2)]
DECS = [lit('7M', 'Decimal', D(7)), lit('-2', 'Int32', -2), ('prop', 'K'), lit('11L', 'Int64', 11)]
BOOLS = [lit('true', 'Boolean', True), lit('false', 'Boolean', False)]
BOOLS2 = [BOOLS[1], BOOLS[0], BOOLS[0]]
TREES = [
    # (leaf lists, unary operators, binary operators, calls, extra depth in the thorough tier)
    ([INTS, DECS], ['-'], ['add', 'sub', 'mul', 'div', 'mod'], []),
    ([BOOLS, BOOLS2], ['not'], ['and', 'or'], []),
    ([INTS], ['-'], ['sub', 'lt', 'eq', 'and', 'mul'], []),
    ([INTS], ['-', 'not'], ['ge', 'ne', 'or', 'gt', 'le'], []),
    ([INTS], ['-'], ['sub', 'mod', 'mul'], ['floor']),
]


def tree(ctx, world, t):
    minimal = show(t, False)
    full = show(t, True)
    ctx.state(minimal)
    for src in (minimal, full):
        got = try_parse(src)
        if not ctx.check(got is not None, 'tree:%s' % src, 'a valid expression is refused: %s' % src):
            continue
        evaluate(ctx, world, got, src, t)
    if got is not None:
        printed(ctx, world, got, src, t)
        if full != minimal:
            e = try_parse(minimal)
            if e is not None:
                printed(ctx, world, e, minimal, t)


# ------------------------------------------------------------------ part 3
def pool():
    """(type,value,literal or None): without a literal the value comes from a property"""
    out = [(None, None, 'null')]
    for v in (0, 1, -1, 2, -7, 2147483647, -2147483648):
        out.append(('Int32', v, str(v)))
    for v in (0, 3, -7, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63):
        out.append(('Int64', v, '%iL' % v))
    for v in ('0', '2.5', '-2.5', '0.1', '1234567890123456789012345', '3'):
        out.append(('Decimal', D(v), v + 'M'))
    for v in ('0', '2.5', '-3.5', '0.1', '1E10', '3'):
        out.append(('Double', float(v), v + 'D'))
    out.append(('Double', float('inf'), 'INFD'))
    out.append(('Double', float('nan'), 'NanD'))
    for v in ('0', '2.5', '-3'):
        out.append(('Single', float(v), v + 'F'))
    out += [('Boolean', True, 'true'), ('Boolean', False, 'false')]
    for v in (u'', u'a', u'b', u'ab', u'B', u"a'b", u'10', u' \u00e9 '):
        out.append(('String', v, u"'%s'" % v.replace("'", "''")))
    for v in ((2013, 8, 30, 18, 49, 0.5), (2013, 8, 30, 18, 49, 59.984375)):
        out.append(('DateTime', v, "datetime'%04i-%02i-%02iT%02i:%02i:%s'" % (v[:5] + (str(v[5]),))))
    for v in ('1.2345678901234567E-5D', '1E22D', '-1E-300D', '0.30000000000000004D'):
        out.append(('Double', float(v[:-1]), v))
    out.append(('Single', 1.25e20, '1.25E20F'))
    out.append(('Single', 0.1, '0.1F'))
    for v in ((2013, 8, 30, 18, 49, 0), (2013, 8, 30, 18, 49, 1), (1999, 12, 31, 0, 0, 59)):
        out.append(('DateTime', v, "datetime'%04i-%02i-%02iT%02i:%02i:%02i'" % v))
    for v in (0, 1, 2 ** 127):
        h = '%032x' % v
        out.append(('Guid', v, "guid'%s-%s-%s-%s-%s'" % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])))
    for v in ('', '\x00\xff', 'ab'):
        out.append(('Binary', v, "X'%s'" % ''.join(['%02X' % ord(c) for c in v])))
    out += [('Int16', -32768, None), ('Int16', 7, None), ('Byte', 255, None), ('SByte', -128, None), ('SByte', 7, None)]
    for t in ('Int32', 'Int64', 'Decimal', 'Double', 'String', 'DateTime', 'Boolean', 'Guid', 'Binary', 'SByte'):
        out.append((t, None, None))
    return out


def operand(world, v, used):
    """(text, reference expression) for a pool value, setting the property it comes from"""
    t, x, text = v
    if text is not None:
        return text, ('lit', text, t, x)
    name = 'p' + t
    if name in used and used[name] != x:
        return None
    used[name] = x
    world.e[name].SetFromValue(py(t, x))
    world.ctx[name] = (t, x)
    return name, ('prop', name)


BINOPS = ['add', 'sub', 'mul', 'div', 'mod', 'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'and', 'or']


def apply(ctx, world, form, vals):
    """form: ('bin',op) ('un',op) ('call',name) ('isof'|'cast',type)"""
    used = {}
    ops = []
    for v in vals:
        o = operand(world, v, used)
        if o is None:
            return
        ops.append(o)
    k = form[0]
    texts = [o[0] for o in ops]
    refs = [o[1] for o in ops]
    if k == 'bin':
        src = u'%s %s %s' % (texts[0], form[1], texts[1])
        ref = ('bin', form[1], refs[0], refs[1])
    elif k == 'id':
        src = texts[0]
        ref = refs[0]
    elif k == 'un':
        src = u'%s (%s)' % (form[1], texts[0])
        ref = ('un', form[1], refs[0])
    elif k == 'call':
        src = u'%s(%s)' % (form[1], u','.join(texts))
        ref = ('call', form[1], refs)
    else:
        src = u"%s(%s,'%s')" % (k, texts[0], form[1])
        ref = (k, refs[0], form[1])
    e = try_parse(src)
    if not ctx.check(e is not None, 'parse:%s' % src, 'a valid expression is refused: %s' % src):
        return
    what = src + u''.join([u' [%s=%r]' % (n, x) for n, x in sorted(used.items())])
    ctx.state(what)
    evaluate(ctx, world, e, what, ref)
    if k != 'bin':
        printed(ctx, world, e, what, ref)


# ------------------------------------------------------------------ part 4: order by
def orderby(ctx, world, parts, style):
    """parts: list of (expression text, reference, direction or None)"""
    sep = [',', ', ', ' ,\t'][style]
    src = sep.join([t + {1: ' asc', -1: ' desc', None: ''}[d] if style < 2 else
                    '  ' + t + {1: '\t ASC', -1: '  Desc', None: ''}[d] for t, r, d in parts])
    try:
        got = core.CommonExpression.OrderByFromString(src)
    except ValueError as x:
        ctx.violation('orderby:%s' % src, 'refused: %s' % x)
        return
    for i in range(2):
        if not ctx.check(len(got) == len(parts), 'orderby:%s' % src, '%i parts' % len(got)):
            return
        for (e, d), (t, ref, want) in zip(got, parts):
            ctx.check(d == (want or 1), 'orderby:%s' % src, 'direction of %s is %r' % (t, d))
            evaluate(ctx, world, e, t, ref)
        if i == 0:
            text = core.CommonExpression.OrderByToString(got)
            try:
                got = core.CommonExpression.OrderByFromString(text)
            except ValueError as x:
                ctx.violation('orderby:%s' % src, 'printed as %s: %s' % (text, x))
                return
            ctx.transitions += 1


ORDERPARTS = [('K', ('prop', 'K')), ('C/S', ('bin', '/', ('prop', 'C'), ('prop', 'S'))),
              ('K sub 1 sub 1', ('bin', 'sub', ('bin', 'sub', ('prop', 'K'), INTS[3]), INTS[3])),
              ("concat('a,b',X)", ('call', 'concat', [('lit', '', 'String', u'a,b'), ('prop', 'X')])),
              ("not (X eq 'desc')", ('un', 'not', ('bin', 'eq', ('prop', 'X'), ('lit', '', 'String', u'desc'))))]
ORDERPARTS[2] = ('K sub 2 sub 2', ORDERPARTS[2][1])


def explore(ctx):
    world = World()
    quick = not ctx.thorough
    maxlen = [5, 5, 4, 4, 4, 4] if quick else [6, 6, 6, 6, 6, 6]
    n = 0
    for ai, alphabet in enumerate(ALPHABETS):
        for length in range(1, maxlen[ai] + 1):
            for tokens in itertools.product(alphabet, repeat=length):
                n += 1
                if ctx.mine():
                    ctx.run({'tokens': list(tokens)}, grammar, ctx, world, list(tokens))
    ctx.bounds['token sequences'] = n
    n = 0
    depth = 3 if quick else 4
    for i, (leafsets, un, bi, call) in enumerate(TREES):
        for k in range(depth + 1):
            for li, leaves in enumerate(leafsets):
                for j, shape in enumerate(shapes(k, leaves, un, bi, call)):
                    n += 1
                    if ctx.mine():
                        ctx.run({'tree': [i, k, li, j]}, tree, ctx, world, fill(shape, leaves))
    ctx.bounds['expression trees'] = n
    ctx.bounds['operators per tree'] = depth
    p = pool()
    idx = range(len(p))
    for op in BINOPS:
        for i in idx:
            for j in idx:
                if ctx.mine():
                    ctx.run({'form': ['bin', op], 'vals': [i, j]}, apply, ctx, world, ('bin', op), [p[i], p[j]])
    for op in ('-', 'not'):
        for i in idx:
            if ctx.mine():
                ctx.run({'form': ['un', op], 'vals': [i]}, apply, ctx, world, ('un', op), [p[i]])
    for i in idx:
        if ctx.mine():
            ctx.run({'form': ['id'], 'vals': [i]}, apply, ctx, world, ('id',), [p[i]])
    for k in ('isof', 'cast'):
        for t in ['Edm.' + x for x in ALLTYPES] + ['M.AT', 'Edm.Nope']:
            for i in idx:
                if ctx.mine():
                    ctx.run({'form': [k, t], 'vals': [i]}, apply, ctx, world, (k, t), [p[i]])
    strings = [i for i in idx if p[i][0] in ('String', None)]
    few = [i for i in idx if p[i][1] is None or i % 4 == 0] + strings
    for m in METHODS:
        for i in idx:
            if ctx.mine():
                ctx.run({'form': ['call', m], 'vals': [i]}, apply, ctx, world, ('call', m), [p[i]])
        for pair in itertools.product(few, few):
            if ctx.mine():
                ctx.run({'form': ['call', m], 'vals': list(pair)}, apply, ctx, world, ('call', m), [p[x] for x in pair])
    ints = [i for i in idx if p[i][0] == 'Int32' and p[i][2] in ('0', '1', '2', '2147483647', None)]
    for m, second, third in (('substring', ints, ints), ('replace', strings, strings)):
        for t in itertools.product(strings, second, third):
            if ctx.mine():
                ctx.run({'form': ['call', m], 'vals': list(t)}, apply, ctx, world, ('call', m), [p[x] for x in t])
    for r in (1, 2, 3):
        for t in itertools.product([(a, d) for a in range(len(ORDERPARTS)) for d in (1, -1, None)], repeat=r):
            if r == 3 and quick and len(set(a for a, d in t)) < 3:
                continue
            for style in range(3):
                if ctx.mine():
                    ctx.run({'order': [list(x) for x in t], 'style': style}, order_case, ctx, world, t, style)


def order_case(ctx, world, t, style):
    orderby(ctx, world, [ORDERPARTS[a] + (d,) for a, d in t], style)


def replay(ctx, case):
    world = World()
    if 'tokens' in case:
        grammar(ctx, world, [str(x) for x in case['tokens']])
    elif 'tree' in case:
        i, k, li, j = case['tree']
        leafsets, un, bi, call = TREES[i]
        shape = next(itertools.islice(shapes(k, leafsets[li], un, bi, call), j, None))
        tree(ctx, world, fill(shape, leafsets[li]))
    elif 'order' in case:
        order_case(ctx, world, [tuple(x) for x in case['order']], case['style'])
    else:
        p = pool()
        apply(ctx, world, tuple(case['form']), [p[i] for i in case['vals']])
