# -*- coding: utf-8 -*-
"""C10: QTI v2 expressions.

Every operator of the QTI v2 expression language is evaluated on every tuple of operands from a
pool of values (every base type, single, ordered, multiple and record, typed and untyped NULLs),
with every setting of its attributes; the random operators under every outcome of the random
generator.  The result has to be the one of a reference evaluator written from the specification."""
import itertools
import math
import random
import decimal
import StringIO
import mclib

D = decimal.Decimal


# ------------------------------------------------------------------ a random generator under control
class Chooser(object):
    """Explores every sequence of choices: run(fn) calls fn once per sequence."""

    def __init__(self):
        self.script, self.pos = [], 0
        self.active = False

    def choose(self, n):
        if not self.active:
            return 0
        if n <= 0:
            raise ValueError('empty range for random choice')
        if self.pos == len(self.script):
            self.script.append([0, n])
        if self.script[self.pos][1] != n:
            self.script[self.pos:] = [[0, n]]
        self.pos += 1
        return self.script[self.pos - 1][0]

    def run(self, fn):
        self.script, self.active = [], True
        try:
            while True:
                self.pos = 0
                yield fn()
                del self.script[self.pos:]
                while self.script and self.script[-1][0] + 1 >= self.script[-1][1]:
                    self.script.pop()
                if not self.script:
                    return
                self.script[-1][0] += 1
        finally:
            self.active = False


CH = Chooser()
REALS = [0.0, 0.25, 0.5, 1 - 2.0 ** -53]


def _randrange(start, stop=None, step=1):
    r = xrange(start) if stop is None else xrange(start, stop, step)
    return r[CH.choose(len(r))]


def _shuffle(x, *args):
    for i in reversed(xrange(1, len(x))):
        j = CH.choose(i + 1)
        x[i], x[j] = x[j], x[i]


def _sample(population, k):
    pool = list(population)
    result = []
    for i in xrange(k):
        result.append(pool.pop(CH.choose(len(pool))))
    return result


def _randint(a, b):
    if b < a:
        raise ValueError('empty range for randint')
    if b - a > 5000:
        # only the ends of a long range
        return a + [0, 1, b - a][CH.choose(3)]
    return a + CH.choose(b - a + 1)


def control_random():
    random.randrange = _randrange
    random.randint = _randint
    random.choice = lambda seq: seq[CH.choose(len(seq))]
    random.random = lambda: REALS[CH.choose(len(REALS))]
    random.uniform = lambda a, b: a + (b - a) * random.random()
    random.shuffle = _shuffle
    random.sample = _sample


control_random()

import pyslet.xsdatatypes20041028 as xsi
import pyslet.html40_19991224 as html
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as v2
import pyslet.qtiv2.expressions as ex
import pyslet.imsqtiv2p1

S, O, M, R = 'single', 'ordered', 'multiple', 'record'
NAN, INF = float('nan'), float('inf')
BASES = ['boolean', 'directedPair', 'duration', 'float', 'identifier', 'integer', 'pair', 'point', 'string', 'uri']
POOL = {
    'boolean': [True, False],
    'directedPair': [('A', 'B'), ('B', 'A')],
    'duration': [1.0, 2.5],
    'float': [0.0, -1.5, 0.5, 2.0, 2.5, 1e308, INF, NAN],
    'identifier': ['A', 'B'],
    'integer': [0, 1, -3, 2, 2147483647, -2147483648],
    'pair': [('A', 'B'), ('A', 'C')],
    'point': [(3, 3), (0, 0)],
    'string': ['a', 'A', 'ab', 'bc'],
    'uri': ['http://a/', 'http://b/'],
}
INTMIN, INTMAX = -2 ** 31, 2 ** 31 - 1


def pool(thorough):
    """(cardinality, base type, value): None as value is NULL, None as the others unknown"""
    out = [(None, None, None), (S, None, None), (O, None, None), (M, None, None), (R, None, None)]
    for b in BASES:
        vs = POOL[b]
        out.append((S, b, None))
        for v in vs:
            out.append((S, b, v))
        x, y = vs[0], vs[1]
        conts = [[x], [y, x]]
        if thorough or b in ('identifier', 'integer', 'string'):
            conts += [[x, y], [x, x], [x, y, x], [y, x, x]]
        if thorough:
            conts += [[x, x, y], [y], [x, y, x, y], [y, y, x]]
        for c in (O, M):
            out.append((c, b, None))
            seen = []
            for vs in conts:
                if c == M:
                    vs = sorted(vs)
                if vs not in seen:
                    seen.append(vs)
                    out.append((c, b, tuple(vs)))
    out.append((R, None, (('a', ('integer', 1)),)))
    out.append((R, None, (('a', ('identifier', 'A')), ('b', ('float', 0.5)))))
    return out


def base(b):
    return None if b is None else getattr(v2.BaseType, b)


def native(b, v):
    if b == 'uri' and v is not None:
        return v2.URIFactory.URI(v)
    return v


def build(val):
    c, b, v = val
    if c is None:
        return v2.Value()
    if c == S:
        return v2.SingleValue.NewValue(base(b), native(b, v))
    if c == R:
        r = v2.RecordContainer()
        if v:
            r.SetValue(dict((n, v2.SingleValue.NewValue(base(fb), native(fb, fv))) for n, (fb, fv) in v))
        return r
    r = v2.Value.NewValue(getattr(v2.Cardinality, c), base(b))
    if v is not None:
        r.SetValue([native(b, x) for x in v])
    return r


PYTYPES = {'boolean': bool, 'float': float, 'duration': float, 'integer': int, 'string': unicode, 'identifier': unicode}


def single(b, v):
    """the canonical form of a python value, checked to be a legal representation"""
    if b in PYTYPES:
        if type(v) is not PYTYPES[b] and not (b == 'integer' and type(v) is long):
            return ('illegal', b, repr(v))
        if b == 'integer' and not INTMIN <= v <= INTMAX:
            return ('illegal', b, repr(v))
        if b in ('string', 'identifier') and not v:
            return ('illegal', b, repr(v))
        if b == 'float' or b == 'duration':
            return 'nan' if v != v else v
        return v
    if b in ('pair', 'directedPair'):
        if type(v) is not tuple or len(v) != 2 or (b == 'pair' and v[0] > v[1]):
            return ('illegal', b, repr(v))
        return v
    if b == 'point':
        if type(v) is not tuple or len(v) != 2:
            return ('illegal', b, repr(v))
        return v
    if b == 'uri':
        return str(v)
    return ('illegal', b, repr(v))


def canon(x):
    """a Value as (cardinality, base, value)"""
    c = x.Cardinality()
    c = None if c is None else v2.Cardinality.EncodeValue(c)
    b = None if x.baseType is None else v2.BaseType.EncodeValue(x.baseType)
    v = x.value
    if (v is None) == bool(x) or x.IsNull() == bool(x):
        return ('illegal', 'null test')
    if v is None:
        return (c, b, None)
    if c == S:
        return (c, b, single(b, v))
    if c == R:
        if not v:
            return ('illegal', 'empty record')
        return (c, b, tuple((n, canon(v[n])[1:]) for n in sorted(v)))
    if not v:
        return ('illegal', 'empty container')
    if c == O:
        return (c, b, tuple(single(b, i) for i in v))
    if c == M:
        out = []
        for k in v:
            n = v[k]
            if type(n) is not int or n < 1:
                return ('illegal', 'frequency', repr(n))
            out += [single(b, k)] * n
        return (c, b, tuple(sorted(out)))
    return ('illegal', 'cardinality', c)


def refval(val):
    """the canonical form of a value of the pool"""
    c, b, v = val
    if v is None:
        return val
    if c == S:
        return (c, b, single(b, unicode(v) if b in ('string', 'identifier') else v))
    if c in (O, M):
        vs = [single(b, unicode(x) if b in ('string', 'identifier') else x) for x in v]
        return (c, b, tuple(sorted(vs) if c == M else vs))
    return val


# ------------------------------------------------------------------ the reference
ERR = 'ProcessingError'


class Bad(Exception):
    pass


def null(c, b):
    return ('null', c, b)


def accepts(expected, got):
    if expected == ERR or got == ERR:
        return expected == got
    if got[0] == 'illegal':
        return False
    if expected[0] == 'null':
        return got[2] is None and got[0] in (None, expected[1]) and (expected[2] is None or got[1] in (None, expected[2]))
    if expected[0] == 'approx':
        if got[:2] != (S, 'float') or got[2] is None:
            return False
        a, b = expected[1], got[2]
        if b == 'nan':
            return a != a
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return expected == got


def isnull(v):
    return v[2] is None


def typed(vals, cards=None, bases=None, same_base=False, same_card=False):
    """raises Bad if a non-null operand is of the wrong type; returns the outcomes that are allowed besides
    the value: a null operand of the wrong type may or may not be refused"""
    for only_values in (True, False):
        vs = [v for v in vals if not (only_values and isnull(v))]
        bad = False
        if cards and [v for v in vs if v[0] is not None and v[0] not in cards]:
            bad = True
        if bases and [v for v in vs if v[1] is not None and v[1] not in bases] :
            bad = True
        if bases and [v for v in vs if v[0] == R and not isnull(v)]:
            bad = True
        if same_base and len(set(v[1] for v in vs if v[1] is not None)) > 1:
            bad = True
        if same_base and len(set(v[0] == R for v in vs if not isnull(v))) > 1:
            bad = True
        if same_card and len(set(v[0] for v in vs if v[0] is not None)) > 1:
            bad = True
        if bad:
            if only_values:
                raise Bad
            return [ERR]
    return []


NUM = ('float', 'integer')


def boolean(x):
    return (S, 'boolean', x)


NB = null(S, 'boolean')


def f_multiple(vals, c=M):
    allow = typed(vals, (S, c), None, same_base=True)
    if [v for v in vals if v[0] == R and not isnull(v)]:
        raise Bad
    b = None
    items = []
    for v in vals:
        if v[1] is not None and b is None:
            b = v[1]
        if isnull(v):
            continue
        b = v[1]
        items += [v[2]] if v[0] == S else list(v[2])
    if not items:
        # which of the types of the NULLs the NULL has is left open
        return allow + [null(c, None)]
    return allow + [refval((c, b, tuple(items)))]


def f_ordered(vals):
    return f_multiple(vals, O)


def f_containersize(v):
    if isnull(v):
        return [(S, 'integer', 0)] + ([ERR] if v[0] not in (O, M) else [])
    typed([v], (O, M))
    return [(S, 'integer', len(v[2]))]


def f_isnull(v):
    return [boolean(isnull(v))]


def f_index(v, n):
    if isnull(v):
        return [null(S, v[1])] + ([ERR] if v[0] != O or n < 1 else [])
    typed([v], (O,))
    if n < 1:
        raise Bad
    if n > len(v[2]):
        return [null(S, v[1])]
    return [refval((S, v[1], v[2][n - 1]))]


def f_fieldvalue(v, name):
    if isnull(v):
        return [null(S, None)] + ([ERR] if v[0] != R else [])
    typed([v], (R,))
    d = dict(v[2])
    if name in d:
        return [refval((S,) + d[name])]
    return [null(S, None)]


def f_random(v):
    """the set of results"""
    if isnull(v):
        return [null(S, v[1])] + ([ERR] if v[0] not in (O, M, None) else [])
    typed([v], (O, M))
    return [refval((S, v[1], x)) for x in v[2]]


def pairtypes(a, b):
    """for member and delete"""
    if isnull(a) or isnull(b):
        strange = (a[1] == 'duration' or b[1] == 'duration' or a[0] not in (S, None) or b[0] not in (O, M, None) or
                   (a[1] and b[1] and a[1] != b[1]))
        return [ERR] if strange else []
    if a[0] != S or b[0] not in (O, M) or a[1] != b[1] or a[1] == 'duration':
        raise Bad
    return []


def f_member(a, b):
    allow = pairtypes(a, b)
    if isnull(a) or isnull(b):
        return allow + [NB]
    return [boolean(a[2] in b[2])]


def f_delete(a, b):
    allow = pairtypes(a, b)
    if isnull(a) or isnull(b):
        return allow + [null(b[0] if b[0] in (O, M) else None, None)] + ([null(b[0], None)] if allow else [])
    rest = tuple(x for x in b[2] if x != a[2])
    if not rest:
        return [null(b[0], b[1])]
    return [refval((b[0], b[1], rest))]


def f_contains(a, b):
    """as the tests of the repository have it: the first container is contained in the second"""
    if isnull(a) or isnull(b):
        return [NB, ERR] if (a[1] or b[1] or a[0] or b[0]) and strange_pair(a, b, (O, M)) else [NB]
    typed([a, b], (O, M), None, same_base=True, same_card=True)
    if a[1] == 'duration':
        raise Bad
    if a[0] == O:
        n = len(a[2])
        return [boolean(bool([i for i in range(len(b[2]) - n + 1) if b[2][i:i + n] == a[2]]))]
    return [boolean(not [x for x in a[2] if a[2].count(x) > b[2].count(x)])]


def strange_pair(a, b, cards):
    """operands, one of them NULL, whose types don't fit each other or the operator"""
    for v in (a, b):
        if v[0] not in (None,) + tuple(cards) or v[1] == 'duration':
            return True
    if a[0] and b[0] and a[0] != b[0]:
        return True
    return bool(a[1] and b[1] and a[1] != b[1])


def strings(a, b):
    allow = typed([a, b], (S,), ('string',))
    return allow


def f_stringmatch(a, b, cs, sub):
    allow = strings(a, b)
    if isnull(a) or isnull(b):
        return allow + [NB]
    x, y = a[2], b[2]
    if not cs:
        x, y = x.lower(), y.lower()
    return [boolean(x in y if sub else x == y)]


def f_substring(a, b, cs):
    return f_stringmatch(a, b, cs, True)


def f_not(v):
    allow = typed([v], (S,), ('boolean',))
    return allow + [NB if isnull(v) else boolean(not v[2])]


def f_and(vals):
    allow = typed(vals, (S,), ('boolean',))
    if False in [v[2] for v in vals if not isnull(v)]:
        return allow + [boolean(False)]
    return allow + [NB if [v for v in vals if isnull(v)] else boolean(True)]


def f_or(vals):
    allow = typed(vals, (S,), ('boolean',))
    if True in [v[2] for v in vals if not isnull(v)]:
        return allow + [boolean(True)]
    return allow + [NB if [v for v in vals if isnull(v)] else boolean(False)]


def f_anyn(vals, lo, hi):
    allow = typed(vals, (S,), ('boolean',))
    if lo is None or hi is None:
        return allow + [NB]
    t = len([v for v in vals if v[2] is True])
    n = len([v for v in vals if isnull(v)])
    results = set(lo <= t + k <= hi for k in range(n + 1))
    if lo > hi:
        # contradictory bounds: never true
        return allow + [boolean(False), NB]
    return allow + ([boolean(results.pop())] if len(results) == 1 else
                    # NULL while it depends on the NULLs, also where false is certain only for each of
                    # the completions one by one
                    [NB])


def f_match(a, b):
    if isnull(a) or isnull(b):
        return [NB, ERR] if strange_pair(a, b, (S, O, M, R)) else [NB]
    typed([a, b], None, None, same_base=True, same_card=True)
    if a[1] == 'duration':
        raise Bad
    if a[0] == R:
        d, e = dict(a[2]), dict(b[2])
        if [n for n in d if n in e and d[n][0] != e[n][0]]:
            return [boolean(False), ERR]
        return [boolean(d == e)]
    if a[0] == M:
        return [boolean(sorted(a[2]) == sorted(b[2]))]
    return [boolean(a[2] == b[2])]


def numeric(vals):
    return typed(vals, (S,), NUM)


def f_compare(op):
    def f(a, b):
        allow = numeric([a, b])
        if isnull(a) or isnull(b):
            return allow + [NB]
        return [boolean(op(a[2], b[2]))]
    return f


def f_dcompare(op):
    def f(a, b):
        allow = typed([a, b], (S,), ('duration',))
        if isnull(a) or isnull(b):
            return allow + [NB]
        return [boolean(op(a[2], b[2]))]
    return f


def f_equal(a, b, mode, tol, lower, upper):
    allow = numeric([a, b])
    if isnull(a) or isnull(b):
        return allow + [NB]
    x, y = float(a[2]), float(b[2])
    if mode == 'exact':
        return [boolean(x == y)]
    if not tol:
        raise Bad
    t0, t1 = tol[0], tol[-1]
    if t0 is None or t1 is None:
        return [NB]
    if x != x or y != y or abs(x) == INF or abs(y) == INF:
        return [boolean(True), boolean(False)] if abs(x) == INF else [boolean(False)]
    if mode == 'absolute':
        lo, hi = D(x) - D(t0), D(x) + D(t1)
    else:
        if x < 0:
            return [boolean(True), boolean(False)]
        lo, hi = D(x) * (1 - D(t0) / 100), D(x) * (1 + D(t1) / 100)
    dy = D(y)
    for edge in (lo, hi):
        if edge != dy and abs(edge - dy) <= abs(edge) * D('1e-12'):
            return [boolean(True), boolean(False)]
    return [boolean((dy >= lo if lower else dy > lo) and (dy <= hi if upper else dy < hi))]


def roundings(x, mode, figures):
    """the results of rounding x: two if it depends on whether it is seen as a tie"""
    out = set()
    for d in (D(x), D(repr(x))):
        if d == 0:
            out.add(D(0))
        elif mode == 'decimalPlaces':
            with decimal.localcontext() as c:
                c.prec = 800
                out.add(d.quantize(D(1).scaleb(-figures), decimal.ROUND_HALF_UP))
        else:
            out.add(decimal.Context(prec=figures, rounding=decimal.ROUND_HALF_UP).create_decimal(d))
    return out


def f_equalrounded(a, b, mode, figures):
    allow = numeric([a, b])
    if isnull(a) or isnull(b):
        return allow + [NB]
    if figures is None:
        return [NB]
    if figures < (0 if mode == 'decimalPlaces' else 1):
        return [ERR, NB]
    x, y = float(a[2]), float(b[2])
    if x != x or y != y or abs(x) == INF or abs(y) == INF:
        return [boolean(x == y)]
    if a[2] == b[2]:
        return [boolean(True)]
    return [boolean(p == q) for p in roundings(x, mode, figures) for q in roundings(y, mode, figures)]


def number(v, allow):
    """an integer result"""
    if INTMIN <= v <= INTMAX:
        return allow + [(S, 'integer', v)]
    return allow + [ERR, null(S, 'integer')]


def f_fold(op, start):
    def f(vals):
        allow = numeric(vals)
        if [v for v in vals if isnull(v)]:
            types = set(v[1] for v in vals if v[1])
            return allow + [null(S, 'float' if 'float' in types else 'integer' if types else None)]
        r = start
        for v in vals:
            r = op(r, v[2])
        if [v for v in vals if v[1] == 'float']:
            return allow + [('approx', float(r))]
        return number(r, allow)
    return f


def f_subtract(a, b):
    allow = numeric([a, b])
    if isnull(a) or isnull(b):
        types = set(v[1] for v in (a, b) if v[1])
        return allow + [null(S, 'float' if 'float' in types else 'integer' if types else None)]
    if 'float' in (a[1], b[1]):
        return [('approx', float(a[2]) - float(b[2]))]
    return number(a[2] - b[2], [])


def realop(op):
    def f(a, b):
        allow = numeric([a, b])
        nf = null(S, 'float')
        if isnull(a) or isnull(b):
            return allow + [nf]
        x, y = float(a[2]), float(b[2])
        try:
            r = op(x, y)
        except (ValueError, ZeroDivisionError, OverflowError):
            return [nf]
        special = [v for v in (x, y) if v != v or abs(v) == INF]
        if abs(r) == INF or r != r:
            return [nf] + ([('approx', r)] if special else [])
        return [('approx', r)]
    return f


def f_intop(op):
    def f(a, b):
        allow = typed([a, b], (S,), ('integer',))
        if isnull(a) or isnull(b) or b[2] == 0:
            return allow + [null(S, 'integer')]
        return number(op(a[2], b[2]), [])
    return f


def f_truncate(v, half=None):
    allow = typed([v], (S,), ('float',))
    ni = null(S, 'integer')
    if isnull(v) or v[2] != v[2] or abs(v[2]) == INF:
        return allow + [ni]
    if half:
        n = (D(v[2]) + D('0.5')).to_integral_value(decimal.ROUND_FLOOR)
    else:
        n = D(v[2]).to_integral_value(decimal.ROUND_DOWN)
    return number(int(n), [])


def f_round(v):
    return f_truncate(v, True)


def f_tofloat(v):
    allow = typed([v], (S,), ('integer',))
    return allow + [null(S, 'float') if isnull(v) else (S, 'float', float(v[2]))]


def inshape(shape, c, x, y, w=None, h=None):
    """True, False or None (on the outline)"""
    if shape == 'default':
        return x >= 0 and y >= 0 and (w is None or x <= w) and (h is None or y <= h)
    if shape == 'rect':
        return min(c[0], c[2]) <= x < max(c[0], c[2]) and min(c[1], c[3]) <= y < max(c[1], c[3])
    if shape == 'circle':
        return (x - c[0]) ** 2 + (y - c[1]) ** 2 <= c[2] ** 2
    if shape == 'ellipse':
        return ((x - c[0]) * c[3]) ** 2 + ((y - c[1]) * c[2]) ** 2 <= (c[2] * c[3]) ** 2
    pts = [(c[i], c[i + 1]) for i in range(0, len(c), 2)]
    if pts[0] != pts[-1]:
        pts.append(pts[0])
    inside = False
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        cross = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
        if cross == 0 and min(x0, x1) <= x <= max(x0, x1) and min(y0, y1) <= y <= max(y0, y1):
            return None
        if (y0 > y) != (y1 > y) and (cross > 0) == (y1 > y0):
            inside = not inside
    return inside


def f_inside(v, shape, coords):
    if isnull(v):
        return [NB] + ([ERR] if v[0] == R or v[1] not in (None, 'point') else [])
    typed([v], (S, O, M), ('point',))
    pts = [v[2]] if v[0] == S else v[2]
    hits = [inshape(shape, coords, x, y) for x, y in pts]
    if True in hits:
        return [boolean(True)]
    return [boolean(False)] + ([boolean(True)] if None in hits else [])


SHAPES = [('default', []), ('rect', [1, 2, 4, 6]), ('rect', [4, 6, 1, 2]), ('rect', [0, 0, 3, 3]), ('circle', [3, 3, 2]),
          ('circle', [0, 0, 5]), ('ellipse', [3, 3, 3, 2]), ('ellipse', [3, 3, 1, 4]),
          ('poly', [1, 1, 6, 2, 2, 6]), ('poly', [1, 1, 6, 1, 3, 3, 6, 6, 1, 6]), ('poly', [0, 0, 6, 0, 6, 6, 0, 6, 0, 0]),
          ('poly', [3, 0, 6, 3, 3, 6, 0, 3])]


# ------------------------------------------------------------------ the operators of the code
class Leaf(ex.Expression):
    """a sub-expression with a given value"""
    XMLNAME = (core.IMSQTI_NAMESPACE, 'leaf')
    item = None

    def Evaluate(self, state):
        return build(self.item)


ITEM = u"""<?xml version="1.0" encoding="UTF-8"?>
<assessmentItem xmlns="http://www.imsglobal.org/xsd/imsqti_v2p1" identifier="I" title="T" adaptive="false" timeDependent="false">
%s
</assessmentItem>"""
TEMPLATES = u"""
<responseDeclaration identifier="RESP" cardinality="single" baseType="integer"/>
<outcomeDeclaration identifier="OUT" cardinality="single" baseType="integer"/>
<templateDeclaration identifier="TI" cardinality="single" baseType="integer"><defaultValue><value>2</value></defaultValue></templateDeclaration>
<templateDeclaration identifier="TNI" cardinality="single" baseType="integer"/>
<templateDeclaration identifier="TF" cardinality="single" baseType="float"><defaultValue><value>0.5</value></defaultValue></templateDeclaration>
<templateDeclaration identifier="TNF" cardinality="single" baseType="float"/>
<templateDeclaration identifier="TS" cardinality="single" baseType="string"><defaultValue><value>a.*</value></defaultValue></templateDeclaration>
<templateDeclaration identifier="TNS" cardinality="single" baseType="string"/>
"""


def document(body):
    doc = core.QTIDocument()
    doc.Read(src=StringIO.StringIO((ITEM % body).encode('utf-8')))
    return doc


def session(body=u''):
    doc = document(TEMPLATES + body)
    st = v2.ItemSessionState(doc.root)
    st.BeginSession()
    return doc, st


def make(cls, n, attrs):
    e = cls(None)
    leaves = [e.ChildElement(Leaf) for i in range(n)]
    for k in attrs:
        setattr(e, k, attrs[k])
    return e, leaves


def outcome(e, state):
    try:
        r = e.Evaluate(state)
    except core.ProcessingError:
        return ERR
    return canon(r)


def expected(f, *args):
    try:
        return f(*args)
    except Bad:
        return [ERR]


INTREFS = {'{TI}': 2, '{TNI}': None, '{OUT}': ERR, '{RESP}': ERR, '{NONE}': ERR, '{TF}': ERR}
FLOATREFS = {'{TF}': 0.5, '{TNF}': None, '{OUT}': ERR, '{NONE}': ERR, '{TI}': ERR}
PATTERNS = [('a', lambda s: s == 'a'), ('a.*', lambda s: s[0] == 'a'), ('[A-Z]+', lambda s: s == 'A'), ('.', lambda s: len(s) == 1),
            ('(a|b)c?b*', lambda s: s in ('a', 'ab', 'bc')), ('a{2}|ab', lambda s: s == 'ab'), ('', lambda s: s == '')]
BADPATTERNS = ['(', '[', 'a{', '*', 'a)', '\\']


class Runner(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = pool(ctx.thorough)
        self.doc, self.state = session()

    def judge(self, name, vals, attrs, e, leaves, exp):
        ctx = self.ctx
        for leaf, v in zip(leaves, vals):
            leaf.item = v
        ctx.transitions += 1
        try:
            got = outcome(e, self.state)
        except mclib.StopExploring:
            raise
        except Exception, err:
            got = ('illegal', type(err).__name__, str(err)[:100])
        if not [x for x in exp if accepts(x, got)]:
            ctx.violation('%s|%r|%s' % (name, vals, attrs), '%s with %s on %r: expected one of %r, got %r' % (name, attrs, vals, exp, got))
        return got

    def each(self, name, cls, n, f, attrlist=(({}, ()),), pools=None):
        """every tuple of n operands; f gets them one by one (n operands) with the extra arguments"""
        ctx = self.ctx
        for i, (attrs, extra) in enumerate(attrlist):
            if not ctx.mine():
                continue
            ctx.case([name, n, i])
            e, leaves = make(cls, n, attrs)
            for vals in itertools.product(*(pools or [self.vals] * n)):
                exp = expected(f, *(vals + tuple(extra)))
                self.judge(name, list(vals), attrs, e, leaves, exp)
            ctx.state('%s/%i/%i' % (name, n, i))
            ctx.outcome('%s/%i/%i' % (name, n, i))

    def every(self, name, cls, n, f, attrlist=(({}, ()),), pools=None):
        """the same for an operator with any number of operands"""
        self.each(name, cls, n, lambda *a: f(list(a[:n]), *a[n:]), attrlist, pools)

    def arity(self, name, cls, wrong, vals, attrs):
        for n in wrong:
            if not self.ctx.mine():
                continue
            self.ctx.case([name, 'arity', n])
            e, leaves = make(cls, n, attrs)
            self.judge(name + ' arity', vals[:n], attrs, e, leaves, [ERR])


def explore(ctx):
    r = Runner(ctx)
    vals = r.vals
    I = [v for v in vals if v[1] == 'integer' and v[0] == S] + [vals[0], vals[1]]
    FL = [(S, 'float', x) for x in (None, 0.0, 0.49999999999999994, -0.5, 1.0, 1.5, 2.0, 2.04, 2.05, 2.5, -2.5, 3.0, 1e308, INF, NAN)]
    B = [v for v in vals if v[1] == 'boolean' and v[0] == S] + [vals[0], vals[1], (O, 'boolean', (True,)), (S, 'string', 'a'), (M, 'boolean', None)]
    ctx.bounds['values'] = len(vals)
    # operators with any number of operands
    small = [v for v in vals if v[1] in (None, 'identifier')] + [(S, 'string', 'a'), (O, 'string', None), (S, 'integer', 1), (M, 'integer', (1, 1))]
    for name, cls, f, p3 in (('multiple', ex.Multiple, f_multiple, small), ('ordered', ex.Ordered, f_ordered, small),
                             ('and', ex.And, f_and, B), ('or', ex.Or, f_or, B),
                             ('sum', ex.Sum, f_fold(lambda a, b: a + b, 0), I + [(S, 'float', 0.5), (S, 'float', None), (S, 'string', 'a')]),
                             ('product', ex.Product, f_fold(lambda a, b: a * b, 1), I + [(S, 'float', 0.5), (S, 'float', None), (O, 'float', (0.5,))])):
        r.every(name, cls, 1, f)
        r.every(name, cls, 2, f)
        r.every(name, cls, 3, f, pools=[p3] * 3)
        if ctx.thorough and name not in ('multiple', 'ordered'):
            r.every(name, cls, 4, f, pools=[p3] * 4)
    for name, cls, c in (('multiple', ex.Multiple, M), ('ordered', ex.Ordered, O)):
        r.every(name, cls, 0, (lambda vs, c=c: f_multiple(vs, c)))
    # one operand
    r.each('containerSize', ex.ContainerSize, 1, f_containersize)
    r.each('isNull', ex.IsNull, 1, f_isnull)
    r.each('index', ex.Index, 1, f_index, [({'n': n}, (n,)) for n in (-1, 0, 1, 2, 3, 4, 5)])
    r.each('fieldValue', ex.FieldValue, 1, f_fieldvalue, [({'fieldIdentifier': n}, (n,)) for n in 'abc'])
    r.each('not', ex.Not, 1, f_not)
    r.each('truncate', ex.Truncate, 1, f_truncate)
    r.each('truncate', ex.Truncate, 1, f_truncate, pools=[FL + [(S, 'float', 2147483647.5), (S, 'float', 2147483648.0), (S, 'float', -2147483649.0), (S, 'float', -2147483648.5)]])
    r.each('round', ex.Round, 1, f_round)
    r.each('round', ex.Round, 1, f_round, pools=[FL + [(S, 'float', 2147483647.4), (S, 'float', 2147483647.5), (S, 'float', -2147483648.5), (S, 'float', -2147483648.6), (S, 'float', 4503599627370497.0)]])
    r.each('integerToFloat', ex.IntegerToFloat, 1, f_tofloat)
    r.each('customOperator', ex.CustomOperator, 1, lambda v: [ERR])
    # two operands
    two = [('member', ex.Member, f_member), ('delete', ex.Delete, f_delete), ('contains', ex.Contains, f_contains), ('match', ex.Match, f_match),
           ('lt', ex.LT, f_compare(lambda a, b: a < b)), ('gt', ex.GT, f_compare(lambda a, b: a > b)),
           ('lte', ex.LTE, f_compare(lambda a, b: a <= b)), ('gte', ex.GTE, f_compare(lambda a, b: a >= b)),
           ('durationLT', ex.DurationLT, f_dcompare(lambda a, b: a < b)), ('durationGTE', ex.DurationGTE, f_dcompare(lambda a, b: a >= b)),
           ('subtract', ex.Subtract, f_subtract), ('divide', ex.Divide, realop(lambda a, b: a / b)), ('power', ex.Power, realop(math.pow)),
           ('integerDivide', ex.IntegerDivide, f_intop(lambda a, b: a // b)), ('integerModulus', ex.IntegerModulus, f_intop(lambda a, b: a - b * (a // b)))]
    for name, cls, f in two:
        r.each(name, cls, 2, f)
        r.arity(name, cls, (0, 1, 3), [(S, 'integer', 1)] * 3, {})
    wide = [(S, 'integer', n) for n in (-7, -3, -2, -1, 0, 1, 2, 3, 7, INTMAX, INTMIN)]
    for name, cls, f in two:
        if name in ('integerDivide', 'integerModulus', 'subtract', 'divide', 'power', 'lt', 'gt', 'lte', 'gte'):
            r.each(name, cls, 2, f, pools=[wide + FL[1:]] * 2)
    strs = [(S, 'string', s) for s in ('a', 'A', 'ab', 'aB', 'bAb', u'\xe9', u'\xc9a', ' a', 'a ')] + [(S, 'string', None), vals[0], vals[1], (S, 'identifier', 'a'), (O, 'string', ('a',))]
    cs = [({'caseSensitive': c}, (c,)) for c in (True, False)]
    r.each('substring', ex.SubString, 2, f_substring, cs)
    r.each('substring', ex.SubString, 2, f_substring, cs, pools=[strs, strs])
    sm = [({'caseSensitive': c, 'substring': s}, (c, s)) for c in (True, False) for s in (None, True, False)]
    r.each('stringMatch', ex.StringMatch, 2, f_stringmatch, sm)
    r.each('stringMatch', ex.StringMatch, 2, f_stringmatch, sm, pools=[strs, strs])
    for name, cls in (('substring', ex.SubString), ('stringMatch', ex.StringMatch), ('equal', ex.Equal), ('equalRounded', ex.EqualRounded)):
        r.arity(name, cls, (0, 1, 3), [(S, 'string', 'a')] * 3, {'figures': '1'} if name == 'equalRounded' else {})

    # patterns
    def f_pattern(v, test):
        allow = typed([v], (S,), ('string',))
        if isnull(v) or test is None:
            return allow + [NB]
        return [boolean(test(v[2]))]
    pats = [({'pattern': p}, (t,)) for p, t in PATTERNS] + [({'pattern': p}, (None,)) for p in BADPATTERNS] + [
        ({'pattern': '{TS}'}, (PATTERNS[1][1],)), ({'pattern': '{TNS}'}, (None,))]
    r.each('patternMatch', ex.PatternMatch, 1, f_pattern, pats)
    r.each('patternMatch', ex.PatternMatch, 1, lambda v: [ERR] if v[0] == S and v[1] == 'string' else [ERR, NB], [({'pattern': '{TI}'}, ())])
    # anyN
    bounds = [str(n) for n in range(-1, 5)]
    for n in (1, 2, 3):
        r.every('anyN', ex.AnyN, n, f_anyn, [({'min': a, 'max': b}, (int(a), int(b))) for a in bounds for b in bounds if int(a) <= int(b)],
                pools=[[v for v in B if n < 3 or v[1] == 'boolean']] * n)
    for a, b in itertools.product(['1'] + sorted(INTREFS), repeat=2):
        x, y = INTREFS.get(a, 1), INTREFS.get(b, 1)
        if ERR in (x, y):
            f = lambda vs, x, y: [ERR]
        else:
            f = f_anyn
        r.every('anyN', ex.AnyN, 2, f, [({'min': a, 'max': b}, (x, y))], pools=[B, B])
    # equal
    tols = [[], ['0'], ['0.5'], ['0.5', '1'], ['50'], ['10', '100'], ['2', '0'], ['{TF}'], ['1', '{TNF}'], ['{TNF}']]
    eqs = []
    for mode in ('exact', 'absolute', 'relative'):
        for tol in tols:
            for lo in (True, False):
                for hi in (True, False):
                    if mode == 'exact' and (not lo or not hi):
                        continue
                    t = [FLOATREFS[x] if x in FLOATREFS else float(x) for x in tol]
                    eqs.append(({'toleranceMode': getattr(ex.ToleranceMode, mode), 'tolerance': tol, 'includeLowerBound': lo, 'includeUpperBound': hi}, (mode, t, lo, hi)))
    r.each('equal', ex.Equal, 2, f_equal, eqs[:1])
    nums = [v for v in FL + wide if v[2] not in (1e308,)] + [vals[0]]
    r.each('equal', ex.Equal, 2, f_equal, eqs, pools=[nums, nums])
    for ref in sorted(FLOATREFS):
        if FLOATREFS[ref] == ERR:
            r.each('equal', ex.Equal, 2, lambda a, b: [ERR], [({'toleranceMode': ex.ToleranceMode.absolute, 'tolerance': [ref]}, ())], pools=[[(S, 'float', 1.0)]] * 2)
    # equalRounded
    rn = [(S, 'float', x) for x in (0.0, 3.14, 3.0, 3.1416, 3.14159, 3.0001, -3.14, 1e-5, 1.04e-5, 9.996, 10.0, -0.0001, 0.0001, 31.4, 314.159, 0.5, 0.4999, 2.675, 2.68,
                                    1.4e300, 99.95, 100.0, INF, NAN)] + [(S, 'integer', n) for n in (0, 3, 10, -3, 100, 2147483647, 2147483646)] + [(S, 'float', None)]
    ers = [({'roundingMode': getattr(ex.RoundingMode, m), 'figures': str(n)}, (m, n)) for m in ('decimalPlaces', 'significantFigures') for n in (-1, 0, 1, 2, 3, 4, 9)]
    ers += [({'roundingMode': getattr(ex.RoundingMode, m), 'figures': s}, (m, INTREFS[s])) for m in ('decimalPlaces', 'significantFigures') for s in ('{TI}', '{TNI}')]
    r.each('equalRounded', ex.EqualRounded, 2, f_equalrounded, [({'figures': '3'}, ('significantFigures', 3))])
    r.each('equalRounded', ex.EqualRounded, 2, f_equalrounded, ers, pools=[rn, rn])
    # inside
    grid = [(S, 'point', (x, y)) for x in range(-1, 8) for y in range(-1, 8)]
    ins = [({'shape': getattr(core.Shape, s), 'coords': html.Coords(c)}, (s, c)) for s, c in SHAPES]
    r.each('inside', ex.Inside, 1, f_inside, ins)
    r.each('inside', ex.Inside, 1, f_inside, ins, pools=[grid])
    r.each('inside', ex.Inside, 1, f_inside, ins, pools=[[(c, 'point', (p[2], q[2])) for c in (O, M) for p in grid[::7] for q in grid[::5]]])
    randoms(r)
    lookups(r)
    mappings(r)
    tables(r)
    roundtrips(r)


def randoms(r):
    ctx = r.ctx
    for v in r.vals:
        if not ctx.mine():
            continue
        ctx.case(['random', repr(v)])
        e, leaves = make(ex.Random, 1, {})
        leaves[0].item = v
        exp = expected(f_random, v)
        got = []
        for o in CH.run(lambda: r.judge('random', [v], {}, e, leaves, exp)):
            got.append(o)
        if not isnull(v) and exp != [ERR]:
            ctx.check(set(got) == set(exp), 'random-set|%r' % (v,), 'random(%r) can only be one of %r' % (v, got))
        ctx.state('random%r' % (v,))
    ends = ['-5', '-1', '0', '1', '2', '4', '7', '{TI}', '{TNI}', '{OUT}']
    for a, b, s in itertools.product(ends, ends, ['1', '2', '3', '{TI}', '{TNI}', '10', '0', '-1']):
        if not ctx.mine():
            continue
        lo, hi, st = [INTREFS[x] if x in INTREFS else int(x) for x in (a, b, s)]
        ctx.case(['randomInteger', a, b, s])
        e = ex.RandomInteger(None)
        e.min, e.max, e.step = a, b, s
        if ERR in (lo, hi, st):
            exp = [ERR]
        elif None in (lo, hi, st):
            exp = [null(S, 'integer')]
        elif st < 1 or hi < lo:
            exp = [ERR, null(S, 'integer')]
        else:
            exp = [(S, 'integer', n) for n in range(lo, hi + 1, st)]
        got = list(CH.run(lambda: r.judge('randomInteger', [], {'min': a, 'max': b, 'step': s}, e, [], exp)))
        if exp[0] != ERR and exp[0][0] != 'null':
            ctx.check(set(got) == set(exp), 'randomInteger-set|%s|%s|%s' % (a, b, s), 'can only be one of %r' % sorted(got))
        ctx.state('randomInteger%s,%s,%s' % (a, b, s))
    for a, b in itertools.product(['-1.5', '0', '2.25', '{TF}', '{TNF}', '{OUT}'], ['0', '3', '1e10', '{TF}', '{TNF}', '{NONE}']):
        if not ctx.mine():
            continue
        lo, hi = [FLOATREFS[x] if x in FLOATREFS else float(x) for x in (a, b)]
        ctx.case(['randomFloat', a, b])
        e = ex.RandomFloat(None)
        e.min, e.max = a, b

        def one():
            ctx.transitions += 1
            try:
                return outcome(e, r.state)
            except mclib.StopExploring:
                raise
            except Exception, err:
                return ('illegal', type(err).__name__, str(err)[:100])
        got = list(CH.run(one))
        key = 'randomFloat|%s|%s' % (a, b)
        if ERR in (lo, hi):
            ctx.check(set(got) == set([ERR]), key, repr(got))
        elif None in (lo, hi):
            ctx.check(not [g for g in got if not accepts(null(S, 'float'), g)], key, repr(got))
        elif hi < lo:
            ctx.check(not [g for g in got if g[0] == 'illegal'], key, repr(got))
        else:
            ok = not [g for g in got if g == ERR or g[:2] != (S, 'float') or not lo <= g[2] <= hi]
            ctx.check(ok, key, 'outside [%s,%s]: %r' % (a, b, got))
            if ok and hi > lo:
                d = hi - lo
                ctx.check(min(g[2] for g in got) <= lo + d * 1e-6 and max(g[2] for g in got) >= hi - d * 1e-6 and len(set(got)) >= 4, key,
                          'values near the ends of the range are never selected: %r' % got)
        ctx.state(key)


DECLS = u"""
<responseDeclaration identifier="R1" cardinality="single" baseType="identifier"><defaultValue><value>A</value></defaultValue>
<correctResponse><value>B</value></correctResponse></responseDeclaration>
<responseDeclaration identifier="R2" cardinality="ordered" baseType="integer"><defaultValue><value>2</value><value>1</value></defaultValue>
<correctResponse><value>1</value><value>1</value></correctResponse></responseDeclaration>
<responseDeclaration identifier="R3" cardinality="multiple" baseType="integer"><defaultValue><value>2</value><value>1</value><value>2</value></defaultValue>
<correctResponse><value>1</value><value>1</value></correctResponse></responseDeclaration>
<responseDeclaration identifier="R4" cardinality="record"><defaultValue><value fieldIdentifier="a" baseType="integer">1</value></defaultValue></responseDeclaration>
<responseDeclaration identifier="R5" cardinality="single" baseType="float"/>
<outcomeDeclaration identifier="O1" cardinality="multiple" baseType="string"><defaultValue><value>x</value><value>x</value></defaultValue></outcomeDeclaration>
"""


def lookups(r):
    """variable, default, correct, baseValue, null"""
    ctx = r.ctx
    if not ctx.mine():
        return
    ctx.case(['lookups'])
    doc, st = session(DECLS)
    st.BeginAttempt() if hasattr(doc.root, 'RenderHTML') else None
    want = {
        'R1': ((S, 'identifier', 'A'), (S, 'identifier', 'B')), 'R2': ((O, 'integer', (2, 1)), (O, 'integer', (1, 1))),
        'R3': ((M, 'integer', (1, 2, 2)), (M, 'integer', (1, 1))), 'R4': ((R, None, (('a', ('integer', 1)),)), null(R, None)),
        'R5': (null(S, 'float'), null(S, 'float')), 'O1': ((M, 'string', ('x', 'x')), ERR), 'TI': ((S, 'integer', 2), ERR),
        'NONE': (ERR, ERR)}
    for name in sorted(want):
        d, c = want[name]
        for cls, exp in ((ex.Variable, d), (ex.Default, d), (ex.Correct, c)):
            if cls is ex.Default and name == 'TI':
                continue
            e = cls(None)
            e.identifier = name
            r2 = Runner.__new__(Runner)
            r2.ctx, r2.state = ctx, st
            r2.judge(cls.__name__, [], {'identifier': name}, e, [], [exp])
    e = ex.Null(None)
    r.judge('null', [], {}, e, [], [null(None, None)])
    for v in r.vals:
        if v[0] != S or v[1] in (None,):
            continue
        e = ex.BaseValue(None)
        e.baseType = base(v[1])
        x = build(v)
        e.SetValue(unicode(x))
        if v[2] is None and v[1] != 'string':
            continue
        r.judge('baseValue', [v], {}, e, [], [null(S, 'string') if v[2] is None else refval(v)])


KEYS = {'identifier': ['A', 'B', 'C'], 'integer': [1, 2, 3], 'string': ['a', 'b c', 'A'], 'boolean': [True, False], 'float': [0.5, 1.0, -2.0],
        'pair': [('A', 'B'), ('C', 'D')], 'directedPair': [('A', 'B'), ('B', 'A')], 'point': [(1, 2), (3, 4)]}


def lexical(b, v):
    if b == 'boolean':
        return u'true' if v else u'false'
    if b in ('pair', 'directedPair', 'point'):
        return u' '.join(unicode(x) for x in v)
    return unicode(v)


def mappings(r):
    ctx = r.ctx
    for b in sorted(KEYS):
        keys = KEYS[b]
        for nent in range(0, 3):
            for default in (0.0, 1.5):
                for lower, upper in ((None, None), (1.0, None), (None, 2.0), (1.0, 2.0), (-1.0, 0.5)):
                    if not ctx.mine():
                        continue
                    ctx.case(['mapping', b, nent, default, lower, upper])
                    decl = []
                    table = dict(zip(keys[:nent], (2.0, -3.0)))
                    for c in (S, O, M):
                        lex = [(lexical(b, k), table[k]) for k in keys[:nent]]
                        decl.append(u'<responseDeclaration identifier="%s" cardinality="%s" baseType="%s"><mapping defaultValue="%s"%s%s>%s</mapping></responseDeclaration>' % (
                            c, c, b, default, '' if lower is None else ' lowerBound="%s"' % lower, '' if upper is None else ' upperBound="%s"' % upper,
                            u''.join(u'<mapEntry mapKey="%s" mappedValue="%s"/>' % kv for kv in lex)))
                    doc, st = session(u''.join(decl))
                    r2 = Runner.__new__(Runner)
                    r2.ctx, r2.state = ctx, st
                    for c in (S, O, M):
                        lists = [()] + [t for n in (1, 2, 3) for t in itertools.product(keys, repeat=n)] if c != S else [()] + [(k,) for k in keys]
                        e = ex.MapResponse(None)
                        e.identifier = c
                        for vs in lists:
                            val = (c, b, None if not vs else vs[0] if c == S else vs)
                            st[c] = build(val)
                            if not vs:
                                exp = [(S, 'float', 0.0), null(S, 'float')]
                            else:
                                t = sum(table.get(k, default) for k in set(vs))
                                if lower is not None:
                                    t = max(t, lower)
                                if upper is not None:
                                    t = min(t, upper)
                                exp = [('approx', t)]
                            r2.judge('mapResponse', [val], [nent, default, lower, upper], e, [], exp)
                    ctx.state('mapping%s%s%s%s%s' % (b, nent, default, lower, upper))
    # areas
    shapes = [(s, c) for s, c in SHAPES]
    for i, j in itertools.product(range(len(shapes)), repeat=2):
        for pct in (False, True):
            if not ctx.mine():
                continue
            ctx.case(['areaMapping', i, j, pct])
            bounds = [(None, None), (1.0, 2.5), (0.0, None)][(i + j) % 3]
            areas = [shapes[i], shapes[j]]
            m = v2.AreaMapping(None)
            m.lowerBound, m.upperBound = bounds
            m.defaultValue = -0.25
            for (s, c), mv in zip(areas, (2.0, 1.0)):
                a = m.ChildElement(v2.AreaMapEntry)
                a.shape, a.mappedValue = getattr(core.Shape, s), mv
                a.coords = html.Coords(','.join(str(x) + ('%' if pct else '') for x in c))
            w, h = (100, 200) if pct else (6, 7)
            for n in (0, 1, 2):
                pts = [(x, y) for x in range(-1, 8, 1 if n < 2 else 3) for y in range(-1, 8, 1 if n < 2 else 2)]
                for vs in itertools.product(pts, repeat=n):
                    if pct:
                        vs = tuple((x, 2 * y) for x, y in vs)
                    for c in ((S, O, M) if n == 1 else (O, M)):
                        val = (c, 'point', None if not n else vs[0] if c == S else vs)
                        order = [p for p in vs] if c != M else sorted(set(vs))
                        # an area counts once, a point that is in no area counts the default
                        total, open_, hit = 0.0, False, [False, False]
                        for x, y in order:
                            where = None
                            for k in (0, 1):
                                s, cc = areas[k]
                                if pct:
                                    cc = [q * (2 if t % 2 else 1) for t, q in enumerate(cc)]
                                    if s == 'circle':
                                        cc[2] = areas[k][1][2]
                                t = inshape(s, cc, x, y, w, h)
                                if t is None:
                                    open_ = True
                                if t:
                                    where = k
                                    break
                            if where is None:
                                total += -0.25
                            elif not hit[where]:
                                hit[where] = True
                                total += (2.0, 1.0)[where]
                        if open_:
                            continue
                        if n == 0:
                            exp = [(S, 'float', 0.0), null(S, 'float')]
                        else:
                            if bounds[0] is not None:
                                total = max(total, bounds[0])
                            if bounds[1] is not None:
                                total = min(total, bounds[1])
                            exp = [('approx', total)]
                        ctx.transitions += 1
                        try:
                            got = canon(m.MapValue(build(val), w, h))
                        except Exception, err:
                            got = ('illegal', type(err).__name__, str(err)[:100])
                        if not [x for x in exp if accepts(x, got)]:
                            ctx.violation('areaMapping|%r|%r|%r|%r' % (areas, pct, val, bounds), 'expected %r, got %r' % (exp, got))
            ctx.state('area%i,%i,%s' % (i, j, pct))
    # a response that can't be mapped
    if ctx.mine():
        ctx.case(['mapping', 'refused'])
        doc, st = session(u'<responseDeclaration identifier="A" cardinality="single" baseType="integer"/>'
                          u'<responseDeclaration identifier="P" cardinality="ordered" baseType="point"><areaMapping defaultValue="0">'
                          u'<areaMapEntry shape="rect" coords="1,1,50%,50%" mappedValue="2"/></areaMapping></responseDeclaration>')
        r2 = Runner.__new__(Runner)
        r2.ctx, r2.state = ctx, st
        for cls in (ex.MapResponse, ex.MapResponsePoint):
            for name in ('A', 'OUT', 'TI', 'numAttempts', 'duration', 'completionStatus', 'NONE') + (('P',) if cls is ex.MapResponse else ()):
                e = cls(None)
                e.identifier = name
                r2.judge(cls.__name__, [], {'identifier': name}, e, [], [ERR])
        e = ex.MapResponsePoint(None)
        e.identifier = 'P'
        for val, t in (((O, 'point', ((1, 1),)), 2.0), ((O, 'point', ((49, 49), (1, 2))), 2.0), ((O, 'point', ((50, 50),)), 0.0), ((O, 'point', None), 0.0)):
            st['P'] = build(val)
            r2.judge('mapResponsePoint', [val], {}, e, [], [(S, 'float', t)] + ([null(S, 'float')] if val[2] is None else []))


def tables(r):
    ctx = r.ctx
    for b in ('identifier', 'integer', 'float', 'string'):
        target = KEYS[b]
        for n in (0, 1, 2, 3):
            for srcs in itertools.product((0, 1, 2), repeat=n):
                for default in (None, target[2]):
                    if not ctx.mine():
                        continue
                    ctx.case(['matchTable', b, list(srcs), default])
                    dflt = '' if default is None else ' defaultValue="%s"' % lexical(b, default)
                    for kind in ('match', 'interpolation'):
                        for flags in itertools.product((True, False), repeat=n if kind == 'interpolation' else 0):
                            ent = []
                            for i, s in enumerate(srcs):
                                extra = '' if kind == 'match' or flags[i] else ' includeBoundary="false"'
                                ent.append('<%sTableEntry sourceValue="%s" targetValue="%s"%s/>' % (kind, s, lexical(b, target[i % 2]), extra))
                            doc, st = session(u'<outcomeDeclaration identifier="T" cardinality="single" baseType="%s"><%sTable%s>%s</%sTable></outcomeDeclaration>' % (
                                b, kind, dflt, ''.join(ent), kind))
                            table = [od for od in doc.root.OutcomeDeclaration if od.identifier == 'T'][0].LookupTable
                            tests = [(S, 'integer', k) for k in (-1, 0, 1, 2, 3)] + [(S, 'integer', None), vals_null]
                            if kind == 'interpolation':
                                tests += [(S, 'float', k) for k in (-0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5)] + [(S, 'float', None)]
                            for val in tests:
                                want = default
                                if val[2] is None:
                                    want = None
                                elif kind == 'match':
                                    for i, s in enumerate(srcs):
                                        if s == val[2]:
                                            want = target[i % 2]
                                            break
                                else:
                                    for i, s in enumerate(srcs):
                                        if s < val[2] or (flags[i] and s == val[2]):
                                            want = target[i % 2]
                                            break
                                ctx.transitions += 1
                                try:
                                    got = canon(table.Lookup(build(val)))
                                except Exception, err:
                                    got = ('illegal', type(err).__name__, str(err)[:100])
                                exp = null(S, b) if want is None else refval((S, b, want))
                                if not accepts(exp, got):
                                    ctx.violation('table|%s|%s|%r|%r|%r|%r' % (kind, b, srcs, flags, default, val), 'expected %r, got %r' % (exp, got))
                    ctx.state('table%s%r%s' % (b, srcs, default))


vals_null = (S, None, None)


def roundtrips(r):
    """values: text, copies and session variables"""
    ctx = r.ctx
    if not ctx.mine():
        return
    ctx.case(['values'])
    more = [(S, 'float', x) for x in (0.1, 0.1 + 0.2, 1.0 / 3, 1e-5, 3e-5, 1.1e-5, 123456.789, 1e22, 5e-324, 1.7976931348623157e308, -2.5e-10, 99999.99999999999, 1e15, -INF)]
    more += [(S, 'integer', x) for x in (-1, 7, 10, 1000000)] + [(S, 'string', s) for s in (' ', 'a b', u'\u20ac', '0', 'true')]
    for val in r.vals + more:
        v = build(val)
        ref = refval(val)
        key = repr(val)
        ctx.transitions += 1
        got = canon(v)
        ctx.check(got == ref, 'value|' + key, 'built %r, is %r' % (val, got))
        if val[0] == S and val[1] is not None and (val[2] is not None or val[1] == 'string'):
            try:
                w = v2.SingleValue.NewValue(v.baseType, unicode(v))
                back = canon(w)
            except ValueError, e:
                back = repr(e)
            ctx.check(back == ref, 'text|' + key, '%r written as %r reads as %r' % (val, unicode(v), back))
        if val[0] in (O, M, R):
            unicode(v)
        if val[0] is not None:
            w = v2.Value.CopyValue(v)
            ctx.check(canon(w) == ref, 'copy|' + key, 'copy of %r is %r' % (val, canon(w)))
    bad = [('boolean', ['yes', 'TRUE', '', '2']), ('integer', ['1.0', 'a', '', '2147483648', '-2147483649', '1 ', '0x1', '1e3', '+', '--1']),
           ('float', ['a', '', '1,0', '1 ', 'e5', '1e', '1e5.0', '--1', '.']), ('identifier', ['1a', 'a b', '', '-a', 'a:b']),
           ('pair', ['A', 'A B C', '', 'A 1', '1 A']), ('directedPair', ['A', 'A B C', '', '1 A']), ('point', ['1', '1 2 3', '', '1 a', '1.0 2', '2147483648 0', '0 -2147483649'])]
    for b, texts in bad:
        for t in texts:
            w = v2.SingleValue.NewValue(base(b))
            ctx.transitions += 1
            try:
                w.SetValue(t)
                ctx.violation('accepts|%s|%s' % (b, t), '%r is accepted as %s: %r' % (t, b, w.value))
            except ValueError:
                pass
    good = [('integer', '2147483647', 2147483647), ('integer', '-2147483648', -2147483648), ('integer', '+5', 5), ('float', '1E400', INF), ('float', '-1e400', -INF),
            ('float', 'INF', INF), ('float', '-INF', -INF), ('float', '1.1E-5', 1.1e-5), ('float', '.5', 0.5), ('float', '5.', 5.0), ('boolean', '1', True),
            ('boolean', '0', False), ('pair', 'B A', ('A', 'B')), ('directedPair', 'B A', ('B', 'A')), ('point', '-1 +2', (-1, 2)), ('duration', '1.5', 1.5)]
    for b, t, want in good:
        try:
            got = canon(v2.SingleValue.NewValue(base(b), t))
        except ValueError, e:
            got = repr(e)
        ctx.check(got == refval((S, b, want)), 'reads|%s|%s' % (b, t), '%s %r reads as %r' % (b, t, got))
    # records
    rec = v2.RecordContainer()
    rec['a'] = v2.IntegerValue(1)
    rec['b'] = v2.FloatValue(0.5)
    rec['a'] = v2.IntegerValue()
    ctx.check(canon(rec) == (R, None, (('b', ('float', 0.5)),)), 'record|null-field', repr(canon(rec)))
    rec['b'] = None
    ctx.check(canon(rec) == (R, None, None), 'record|last-field', repr(canon(rec)))
    rec['c'] = v2.IntegerValue(1)
    del rec['c']
    ctx.check(canon(rec) == (R, None, None), 'record|del-last-field', repr(canon(rec)))
    # session variables
    decls = []
    names = []
    for b in BASES:
        for c in (S, O, M):
            names.append((b + c, c, b))
            decls.append(u'<outcomeDeclaration identifier="%s" cardinality="%s" baseType="%s"/>' % (b + c, c, b))
    names.append(('REC', R, None))
    decls.append(u'<outcomeDeclaration identifier="REC" cardinality="record"/>')
    doc, st = session(u''.join(decls))
    for name, c, b in names:
        for val in r.vals:
            ctx.transitions += 1
            before = canon(st[name])
            fits = (val[0] in (None, c)) and (val[1] is None or val[1] == b)
            try:
                st[name] = build(val)
                ok = True
            except (ValueError, core.ProcessingError):
                ok = False
            after = canon(st[name])
            key = 'assign|%s|%r' % (name, val)
            if fits:
                ctx.check(ok and after == ((c, b, None) if val[2] is None else refval(val)), key, 'ok=%s, now %r' % (ok, after))
            elif val[2] is not None:
                ctx.check(not ok and after == before, key, 'assigned: %r, before %r, now %r' % (ok, before, after))
            ctx.check(after[0] == c and after[1] == b, key + '|type', repr(after))


def replay(ctx, case):
    """the whole case is cheap: explore everything on this shard"""
    ctx.nshards, ctx.shard, ctx.index = 1, 0, -1
    explore(ctx)
