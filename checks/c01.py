"""C01: histories of operations on the in-memory data service against a reference model."""
import traceback
import mclib
from odschema import Model, SIMPLE, fingerprint
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.rfc2616 as http

ONE, MANY, ZERO = 1, 2, 0


class Fail(Exception):
    pass


class Ref(object):
    """The reference model: entity values by set and key, and for every association a set
    of (key at end 0, key at end 1) pairs.  Operations either raise Fail and change
    nothing, or change what they say."""

    def __init__(self, model):
        self.model = model
        self.sets = dict((s, {}) for s in model.sets)
        self.links = [set() for a in model.assocs]

    def copy(self):
        r = Ref(self.model)
        r.sets = dict((s, dict(d)) for s, d in self.sets.items())
        r.links = [set(l) for l in self.links]
        return r

    def become(self, other):
        self.sets, self.links = other.sets, other.links

    def targets(self, i, side, k):
        return set(p[1 - side] for p in self.links[i] if p[side] == k)

    def pair(self, side, k, t):
        return (k, t) if side == 0 else (t, k)

    def link(self, i, side, k, t):
        ends = self.model.assocs[i]
        if t not in self.sets[ends[1 - side][0]]:
            raise Fail
        if self.pair(side, k, t) in self.links[i]:
            return
        if ends[1 - side][1] != MANY and self.targets(i, side, k):
            raise Fail
        if ends[side][1] != MANY and self.targets(i, 1 - side, t):
            raise Fail
        self.links[i].add(self.pair(side, k, t))

    def replace(self, i, side, k, t):
        ends = self.model.assocs[i]
        if self.targets(i, side, k) == set([t]):
            return
        if t not in self.sets[ends[1 - side][0]]:
            raise Fail
        if ends[side][1] == ONE and self.targets(i, side, k):
            raise Fail
        if ends[side][1] != MANY and self.targets(i, 1 - side, t) - set([k]):
            raise Fail
        for old in self.targets(i, side, k):
            self.links[i].discard(self.pair(side, k, old))
        self.links[i].add(self.pair(side, k, t))

    def unlink(self, i, side, k, t):
        ends = self.model.assocs[i]
        if ends[0][1] == ONE or ends[1][1] == ONE:
            raise Fail
        if self.pair(side, k, t) not in self.links[i]:
            raise Fail
        self.links[i].discard(self.pair(side, k, t))

    def bind(self, i, side, k, t):
        if self.model.assocs[i][1 - side][1] == MANY:
            self.link(i, side, k, t)
        else:
            self.replace(i, side, k, t)

    def insert(self, s, k, v, binds, via=None):
        """binds: list of (assoc, side, target key, None or a nested bind list)"""
        if k in self.sets[s]:
            raise Fail
        for i, ends in enumerate(self.model.assocs):
            for side in (0, 1):
                if ends[side][0] == s and ends[1 - side][1] == ONE and (i, side) != via:
                    if not [b for b in binds if b[:2] == (i, side)]:
                        raise Fail
        self.sets[s][k] = v
        for i, side, t, nested in binds:
            if nested is None:
                self.bind(i, side, k, t)
            else:
                self.insert(self.model.assocs[i][1 - side][0], t, v, nested, (i, 1 - side))
                self.link(i, side, k, t)

    def delete(self, s, k):
        if k not in self.sets[s]:
            raise Fail
        doomed, todo = set(), [(s, k)]
        while todo:
            s, k = todo.pop()
            if (s, k) in doomed:
                continue
            doomed.add((s, k))
            for i, ends in enumerate(self.model.assocs):
                for side in (0, 1):
                    if ends[side][0] == s and ends[side][1] == ONE:
                        for t in self.targets(i, side, k):
                            if ends[side][2] is None and (ends[1 - side][0], t) not in doomed:
                                raise Fail
                            todo.append((ends[1 - side][0], t))
        for s, k in doomed:
            del self.sets[s][k]
        for i, ends in enumerate(self.model.assocs):
            self.links[i] = set(p for p in self.links[i]
                                if (ends[0][0], p[0]) not in doomed and (ends[1][0], p[1]) not in doomed)

    def apply(self, op):
        """True if it succeeded"""
        r = self.copy()
        try:
            getattr(r, 'do_' + op[0])(*op[1:])
        except Fail:
            return False
        self.become(r)
        return True

    def source(self, i, side, k):
        if k not in self.sets[self.model.assocs[i][side][0]]:
            raise Fail

    def do_ins(self, s, k, v):
        self.insert(s, k, v, [])

    def do_insbind(self, i, side, k, t, new):
        self.insert(self.model.assocs[i][side][0], k, 'a', [(i, side, t, [] if new else None)])

    def do_insbind2(self, i, side, k, t1, new1, t2, new2):
        self.insert(self.model.assocs[i][side][0], k, 'a',
                    [(i, side, t1, [] if new1 else None), (i, side, t2, [] if new2 else None)])

    def do_insboth(self, i, side, k, t, j, jside, u):
        self.insert(self.model.assocs[i][side][0], k, 'a', [(i, side, t, None), (j, jside, u, None)])

    def do_deep(self, i, side, k, t, j, jside, u):
        self.insert(self.model.assocs[i][side][0], k, 'a', [(i, side, t, [(j, jside, u, [])])])

    def do_upd(self, s, k, v):
        if k not in self.sets[s]:
            raise Fail
        self.sets[s][k] = v

    def do_updbind(self, i, side, k, t):
        self.source(i, side, k)
        self.bind(i, side, k, t)

    def do_link(self, i, side, k, t):
        self.source(i, side, k)
        self.link(i, side, k, t)

    def do_unlink(self, i, side, k, t):
        self.source(i, side, k)
        self.unlink(i, side, k, t)

    def do_replace(self, i, side, k, t):
        self.source(i, side, k)
        self.replace(i, side, k, t)

    def do_navins(self, i, side, k, t):
        self.source(i, side, k)
        ends = self.model.assocs[i]
        self.insert(ends[1 - side][0], t, 'a', [], (i, 1 - side))
        self.link(i, side, k, t)

    def do_clear(self, i, side, k):
        self.source(i, side, k)
        for t in self.targets(i, side, k):
            self.unlink(i, side, k, t)

    def do_stale(self, i, side, k, t, how):
        self.source(i, side, k)
        self.delete(self.model.assocs[i][side][0], k)

    def do_del(self, s, k):
        self.delete(s, k)

    def do_edel(self, s, k):
        self.delete(s, k)

    def observe(self):
        return (dict((s, dict(d)) for s, d in self.sets.items()),
                dict(((i, side), dict((k, self.targets(i, side, k)) for k in self.sets[ends[side][0]]))
                     for i, ends in enumerate(self.model.assocs) for side in (0, 1) if ends[side][2]))


class Impl(object):

    def __init__(self, model, doc):
        self.model = model
        self.ds = doc.root.DataServices
        self.container = memds.InMemoryEntityContainer(self.ds['M.C'])

    def open(self, s):
        return self.ds['M.C'][s].OpenCollection()

    def nav(self, i, side, k):
        """the source entity and the name of its navigation property"""
        s, m, name = self.model.assocs[i][side]
        with self.open(s) as c:
            return c[k], name

    def target(self, i, side, t):
        """the entity at the other end, or one with the right key that does not exist"""
        s = self.model.assocs[i][1 - side][0]
        with self.open(s) as c:
            try:
                return c[t]
            except KeyError:
                return self.new(s, t, 'a')

    def new(self, s, k, v):
        with self.open(s) as c:
            e = c.NewEntity()
        e['K'].SetFromValue(k)
        e['V'].SetFromValue(v)
        return e

    def apply(self, op):
        try:
            getattr(self, 'do_' + op[0])(*op[1:])
            return True
        except (edm.EDMError, KeyError):
            return False

    def do_ins(self, s, k, v):
        e = self.new(s, k, v)
        with self.open(s) as c:
            c.InsertEntity(e)
        assert e.exists, 'an inserted entity must exist'

    def insert(self, s, e):
        with self.open(s) as c:
            c.InsertEntity(e)

    def do_insbind(self, i, side, k, t, new):
        s, m, name = self.model.assocs[i][side]
        e = self.new(s, k, 'a')
        e[name].BindEntity(self.new(self.model.assocs[i][1 - side][0], t, 'a') if new else t)
        self.insert(s, e)

    def do_insbind2(self, i, side, k, t1, new1, t2, new2):
        s, m, name = self.model.assocs[i][side]
        e = self.new(s, k, 'a')
        for t, new in ((t1, new1), (t2, new2)):
            e[name].BindEntity(self.new(self.model.assocs[i][1 - side][0], t, 'a') if new else t)
        self.insert(s, e)

    def do_insboth(self, i, side, k, t, j, jside, u):
        s, m, name = self.model.assocs[i][side]
        e = self.new(s, k, 'a')
        e[name].BindEntity(t)
        e[self.model.assocs[j][jside][2]].BindEntity(u)
        self.insert(s, e)

    def do_deep(self, i, side, k, t, j, jside, u):
        s, m, name = self.model.assocs[i][side]
        e = self.new(s, k, 'a')
        e2 = self.new(self.model.assocs[i][1 - side][0], t, 'a')
        e3 = self.new(self.model.assocs[j][1 - jside][0], u, 'a')
        e2[self.model.assocs[j][jside][2]].BindEntity(e3)
        e[name].BindEntity(e2)
        self.insert(s, e)

    def do_upd(self, s, k, v):
        with self.open(s) as c:
            e = c[k]
            e['V'].SetFromValue(v)
            c.UpdateEntity(e)

    def do_updbind(self, i, side, k, t):
        e, name = self.nav(i, side, k)
        e[name].BindEntity(t)
        e.Update()

    def do_link(self, i, side, k, t):
        e, name = self.nav(i, side, k)
        with e[name].OpenCollection() as c:
            c[t] = self.target(i, side, t)

    def do_unlink(self, i, side, k, t):
        e, name = self.nav(i, side, k)
        with e[name].OpenCollection() as c:
            del c[t]

    def do_replace(self, i, side, k, t):
        e, name = self.nav(i, side, k)
        with e[name].OpenCollection() as c:
            c.Replace(self.target(i, side, t))

    def do_navins(self, i, side, k, t):
        e, name = self.nav(i, side, k)
        with e[name].OpenCollection() as c:
            c.InsertEntity(self.new(self.model.assocs[i][1 - side][0], t, 'a'))

    def do_clear(self, i, side, k):
        e, name = self.nav(i, side, k)
        with e[name].OpenCollection() as c:
            c.clear()

    def do_stale(self, i, side, k, t, how):
        """Links from an entity that was deleted after its navigation collection was opened"""
        e, name = self.nav(i, side, k)
        with e[name].OpenCollection() as c:
            with self.open(self.model.assocs[i][side][0]) as sc:
                del sc[k]
            target = self.target(i, side, t)
            try:
                if how == 'link':
                    c[t] = target
                else:
                    c.Replace(target)
            except (edm.EDMError, KeyError):
                return
            raise AssertionError('linked from a deleted entity')

    def do_del(self, s, k):
        with self.open(s) as c:
            del c[k]

    def do_edel(self, s, k):
        with self.open(s) as c:
            e = c[k]
        e.Delete()
        assert not e.exists, 'a deleted entity must not exist'

    def observe(self):
        sets, links = {}, {}
        for s in self.model.sets:
            with self.open(s) as c:
                keys = list(c.keys())
                d = {}
                for e in c.itervalues():
                    assert e.exists
                    d[e.Key()] = e['V'].value
                assert len(keys) == len(set(keys)) == len(c) == len(d), 'keys, values and length disagree'
                assert set(keys) == set(d)
                for k in keys:
                    assert k in c and c[k]['V'].value == d[k], 'lookup by key and iteration disagree'
                sets[s] = d
        for i, ends in enumerate(self.model.assocs):
            for side in (0, 1):
                s, m, name = ends[side]
                if not name:
                    continue
                links[(i, side)] = per = {}
                with self.open(s) as c:
                    for e in c.itervalues():
                        with e[name].OpenCollection() as nc:
                            keys = list(nc.keys())
                            vals = [x.Key() for x in nc.itervalues()]
                            assert sorted(keys) == sorted(vals) and len(keys) == len(set(keys)) == len(nc), \
                                'navigation: keys, values and length disagree'
                            for t in keys:
                                assert t in nc and nc[t].Key() == t
                        if not e[name].isCollection:
                            x = e[name].GetEntity()
                            assert [x.Key()] == keys if x is not None else not keys, 'GetEntity'
                        per[e.Key()] = set(keys)
                    c.Expand({name: None})
                    for e in c.itervalues():
                        assert e[name].isExpanded
                        with e[name].OpenCollection() as nc:
                            assert set(nc.keys()) == per[e.Key()], 'expansion and navigation disagree'
        return sets, links


def alphabet(model, keys, rich, updates):
    ops = []
    first = True
    for s in sorted(model.sets):
        for k in keys[s]:
            ops.append(('ins', s, k, 'a'))
            ops.append(('del', s, k))
            if first:
                # one entity is enough to see an update
                if updates:
                    ops.append(('upd', s, k, 'b'))
                ops.append(('edel', s, k))
                first = False
    for i, ends in enumerate(model.assocs):
        for side in (0, 1):
            s, m, name = ends[side]
            if not name:
                continue
            tkeys = keys[ends[1 - side][0]]
            for k in keys[s]:
                for t in tkeys:
                    if (s, k) != (ends[1 - side][0], t):
                        ops.append(('insbind', i, side, k, t, True))
                    ops.append(('insbind', i, side, k, t, False))
                    ops.append(('link', i, side, k, t))
                    ops.append(('unlink', i, side, k, t))
                    ops.append(('replace', i, side, k, t))
                    ops.append(('updbind', i, side, k, t))
                    ops.append(('navins', i, side, k, t))
                ops.append(('clear', i, side, k))
                for how in ('link', 'replace'):
                    ops.append(('stale', i, side, k, tkeys[-1], how))
            if ends[1 - side][1] == MANY and len(tkeys) > 1 and rich and s != ends[1 - side][0]:
                for n1 in (False, True):
                    for n2 in (False, True):
                        ops.append(('insbind2', i, side, keys[s][0], tkeys[0], n1, tkeys[1], n2))
            for j, jends in enumerate(model.assocs):
                for jside in (0, 1):
                    if j != i and jends[jside][2]:
                        if jends[jside][0] == ends[1 - side][0]:
                            ops.append(('deep', i, side, keys[s][0], tkeys[0], j, jside, keys[jends[1 - jside][0]][0]))
                        if jends[jside][0] == s and i < j:
                            ops.append(('insboth', i, side, keys[s][0], tkeys[0], j, jside, keys[jends[1 - jside][0]][0]))
    return ops


def configs(thorough):
    out = []
    for m0 in (ZERO, ONE, MANY):
        for m1 in (ZERO, ONE, MANY):
            for n0, n1 in (('toB', 'toA'), ('toB', None), (None, 'toA')):
                out.append(('pair-%i%i%s%s' % (m0, m1, n0 or '', n1 or ''), dict(A=SIMPLE, B=SIMPLE),
                            [(('A', m0, n0), ('B', m1, n1))], dict(A=[1, 2], B=[1, 2]), True))
    for m0 in (ZERO, MANY):
        for m1 in (ZERO, MANY):
            for n0, n1 in (('nx', 'pv'), ('nx', None), (None, 'pv')):
                out.append(('self-%i%i%s%s' % (m0, m1, n0 or '', n1 or ''), dict(A=SIMPLE),
                            [(('A', m0, n0), ('A', m1, n1))], dict(A=[1, 2]), True))
    # cascades through three sets
    for m in (ZERO, ONE, MANY):
        out.append(('chain-%i' % m, dict(A=SIMPLE, B=SIMPLE, C=SIMPLE),
                    [(('A', ONE, 'toB'), ('B', MANY, 'toA')), (('B', m, 'toC'), ('C', MANY, 'toB'))],
                    dict(A=[1], B=[1, 2], C=[1, 2] if thorough else [1]), False))
    out.append(('vee', dict(A=SIMPLE, B=SIMPLE, C=SIMPLE),
                [(('A', ONE, 'toC'), ('C', MANY, 'toA')), (('B', ONE, 'toC'), ('C', MANY, 'toB'))],
                dict(A=[1], B=[1], C=[1, 2]), False))
    out.append(('fan', dict(A=SIMPLE, B=SIMPLE, C=SIMPLE),
                [(('A', ONE, 'toB'), ('B', MANY, 'toA')), (('A', ONE, None), ('C', MANY, 'toA'))],
                dict(A=[1], B=[1, 2], C=[1]), False))
    out.append(('double', dict(A=SIMPLE, B=SIMPLE),
                [(('A', ZERO, 'p'), ('B', MANY, 'pr')), (('A', MANY, 'q'), ('B', ZERO, 'qr'))],
                dict(A=[1, 2] if thorough else [1], B=[1, 2]), False))
    return out


def key_of(name, ref, op):
    """A finding is identified by the model, the state the operation met and the operation."""
    return '%s %s in %s' % (name, '/'.join([str(x) for x in op]), describe(ref))


def describe(ref):
    return ' '.join(['%s=%s' % (s, sorted(d.items())) for s, d in sorted(ref.sets.items())] +
                    ['L%i=%s' % (i, sorted(l)) for i, l in enumerate(ref.links)])


SOLO = '''<Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.Int32" Nullable="false"/>
<Property Name="V" Type="Edm.String" Nullable="true" MaxLength="20"/>
<Property Name="C" Type="M.CT" Nullable="false"/>
<Property Name="N" Type="Edm.Int32" Nullable="true"/>'''
CT = '''<ComplexType Name="CT"><Property Name="X" Type="Edm.String"/><Property Name="Y" Type="Edm.Int32"/></ComplexType>'''


class Solo(object):
    """One entity set of media link entries with a complex property: allocated keys, updates
    of selected properties and streams.  The reference is a dictionary
    key -> [V, X, Y, N, stream]."""

    def __init__(self, doc):
        self.ref = {}
        self.ds = doc.root.DataServices
        self.container = memds.InMemoryEntityContainer(self.ds['M.C'])

    def open(self):
        return self.ds['M.C.D'].OpenCollection()

    OPS = [('auto', 1), ('auto', 0)] + [(o, k) for k in (0, 2) for o in
                                        ('ins', 'full', 'selV', 'selC', 'selN', 'stream', 'del')]

    def apply(self, op):
        """returns a problem or None"""
        what, k = op
        ok = True
        with self.open() as c:
            try:
                if what == 'auto':
                    if k:
                        e = c.NewEntity(autoKey=True)
                        if e['K'].value in self.ref:
                            return 'key %s was allocated twice' % e['K'].value
                    else:
                        e = c.NewEntity()
                    e['V'].SetFromValue('auto')
                    c.InsertEntity(e)
                    k = e.Key()
                    if k in self.ref:
                        return 'key %s was allocated twice' % k
                    self.ref[k] = ['auto', None, None, None, '']
                    return
                want = (k in self.ref) == (what != 'ins')
                if what == 'ins':
                    e = c.NewEntity()
                    e['K'].SetFromValue(k)
                    e['V'].SetFromValue('v')
                    e['C']['X'].SetFromValue('x')
                    c.InsertEntity(e)
                    self.ref[k] = ['v', 'x', None, None, '']
                elif what == 'full':
                    e = c[k]
                    e['V'].SetFromValue('f')
                    e['C']['Y'].SetFromValue(7)
                    e['N'].SetFromValue(None)
                    c.UpdateEntity(e)
                    self.ref[k] = ['f', self.ref[k][1], 7, None, self.ref[k][4]]
                elif what == 'selV':
                    c.Expand(None, {'V': None})
                    e = c[k]
                    e['V'].SetFromValue('s')
                    c.UpdateEntity(e)
                    self.ref[k][0] = 's'
                elif what == 'selC':
                    c.Expand(None, {'C': None})
                    e = c[k]
                    e['C']['X'].SetFromValue(None)
                    c.UpdateEntity(e)
                    self.ref[k][1] = None
                elif what == 'selN':
                    c.Expand(None, {'N': None})
                    e = c[k]
                    e['N'].SetFromValue(5)
                    c.UpdateEntity(e)
                    self.ref[k][3] = 5
                elif what == 'stream':
                    c[k].SetStreamFromGenerator(http.MediaType('text', 'plain'), iter(['ab', 'c']))
                    self.ref[k][4] = 'abc'
                else:
                    del c[k]
                    del self.ref[k]
            except (edm.EDMError, KeyError):
                ok = False
            if ok != want:
                return '%s: expected to %s' % (op, 'succeed' if want else 'fail')

    def observe(self):
        with self.open() as c:
            if sorted(c.keys()) != sorted(self.ref.keys()) or len(c) != len(self.ref):
                return 'keys %s, expected %s' % (c.keys(), self.ref.keys())
            for k, r in self.ref.items():
                e = c[k]
                got = [e['V'].value, e['C']['X'].value, e['C']['Y'].value, e['N'].value, ''.join(e.GetStreamGenerator())]
                if got != r:
                    return 'entity %s is %s, expected %s' % (k, got, r)
                if e.GetStreamSize() != len(r[4]) or (r[4] and str(e.GetStreamType()) != 'text/plain'):
                    return 'stream size and type of %s: %s %s' % (k, e.GetStreamSize(), e.GetStreamType())
            for sel, f in (({'V': None}, (0,)), ({'C': None}, (1, 2)), ({'N': None}, (3,)), ({'*': None}, (0, 1, 2, 3)),
                           ({'K': None}, ())):
                c.Expand(None, sel)
                for e in c.itervalues():
                    r = self.ref[e.Key()]
                    got = [e['V'].value, e['C']['X'].value, e['C']['Y'].value, e['N'].value]
                    expected = [r[i] if i in f else None for i in range(4)]
                    if got != expected:
                        return 'entity %s with $select %s is %s, expected %s' % (e.Key(), sel.keys(), got, expected)


def solo(ctx):
    model = Model({'D': SOLO}, [], extra=CT, set_attrs={'D': 'm:HasStream="true"'})
    doc = model.load()
    seen, frontier, depth = set(), [()], 0
    limit = 6 if ctx.thorough else 4
    while frontier and depth < limit:
        nxt = []
        for path in frontier:
            for op in Solo.OPS:
                problem, fp = ctx.run({'config': 'solo', 'path': path, 'op': op}, solo_step, doc, path, op) or (None, None)
                ctx.transitions += 1
                ctx.traces += 1
                if problem:
                    ctx.violation('solo %s' % (path + (op,),), problem)
                elif fp and fp not in seen:
                    seen.add(fp)
                    ctx.state('solo' + fp)
                    nxt.append(path + (op,))
        frontier = nxt
        depth += 1
    ctx.sample('solo: %i operations, %i states, closed: %s' % (len(Solo.OPS), len(seen), not frontier), 9)


def solo_step(doc, path, op):
    s = Solo(doc)
    for o in path:
        s.apply(o)
    return s.apply(op) or s.observe(), fingerprint(s.container)


def build(model, doc, path):
    ref, impl = Ref(model), Impl(model, doc)
    for o in path:
        ref.apply(o)
        impl.apply(o)
    return ref, impl


def compare(ref, impl, op, want):
    try:
        seen = impl.observe()
    except AssertionError, e:
        return '%s: %s' % (op, e)
    expected = ref.observe()
    if seen != expected:
        return '%s (%s): state is %s, expected %s' % (op, 'done' if want else 'refused', seen, expected)


def attempt(impl, op, want):
    try:
        got = impl.apply(op)
    except AssertionError, e:
        return '%s: %s' % (op, e)
    if want != got:
        return '%s: expected to %s' % (op, 'succeed' if want else 'fail')


def one(ctx, cfg, path, op):
    name, sets, assocs, keys, rich = cfg
    model = Model(sets, assocs)
    ref, impl = build(model, model.load(), path)
    before = ref.copy()
    want = ref.apply(op)
    problem = attempt(impl, op, want) or compare(ref, impl, op, want)
    if problem:
        ctx.violation(key_of(name, before, op), 'after %s\n%s' % (path, problem))


def explore(ctx):
    cfgs = configs(ctx.thorough)
    for cfg in cfgs:
        if ctx.mine():
            bfs(ctx, cfg, cfg is cfgs[0] or ctx.thorough)
    if ctx.mine():
        solo(ctx)
    ctx.bounds['configurations'] = len(cfgs)


def bfs(ctx, cfg, updates):
    name, sets, assocs, keys, rich = cfg
    model = Model(sets, assocs)
    doc = model.load()
    ops = alphabet(model, keys, rich, updates)
    limit = 9 if ctx.thorough else 5
    # the states found, each with what the public interface showed of it
    seen = {}
    ref, impl = build(model, doc, ())
    seen[fingerprint(impl.container)] = ref.observe()
    frontier = [()]
    depth = 0
    while frontier and depth < limit:
        nxt = []
        for path in frontier:
            impl = None
            for op in ops:
                ctx.case({'config': name, 'path': path, 'op': op})
                ctx.transitions += 1
                if impl is None:
                    ctx.traces += 1
                    ref, impl = build(model, doc, path)
                    here = fingerprint(impl.container)
                    before = ref
                ref = before.copy()
                want = ref.apply(op)
                ctx.outcome((name, op[0], want))
                try:
                    problem = attempt(impl, op, want)
                except (KeyboardInterrupt, SystemExit, mclib.StopExploring):
                    raise
                except:
                    problem = traceback.format_exc()
                fp = None
                if not problem:
                    fp = fingerprint(impl.container)
                    if fp not in seen:
                        # a state not met before: look at all of it
                        problem = compare(ref, impl, op, want)
                        if not problem:
                            seen[fp] = ref.observe()
                            ctx.state(name + fp)
                            nxt.append(path + (op,))
                    elif seen[fp] != ref.observe():
                        problem = '%s (%s): state is %s, expected %s' % (op, want, seen[fp], ref.observe())
                if problem:
                    ctx.violation(key_of(name, before, op), 'after %s\n%s' % (list(path), problem))
                if problem or fp != here:
                    impl = None
        frontier = nxt
        depth += 1
    k = 'n_configs_closed' if not frontier else 'n_configs_depth_limited'
    ctx.bounds[k] = ctx.bounds.get(k, 0) + 1
    ctx.bounds['depth_max'] = limit
    if ctx.index < 8:
        ctx.sample('%s: %i operations, %i states, closed: %s' % (name, len(ops), len(seen), not frontier))


def replay(ctx, case):
    if case['config'] == 'solo':
        doc = Model({'D': SOLO}, [], extra=CT, set_attrs={'D': 'm:HasStream="true"'}).load()
        path, op = tuple([tuple(o) for o in case['path']]), tuple(case['op'])
        problem, fp = solo_step(doc, path, op)
        if problem:
            ctx.violation('solo %s' % (path + (op,),), problem)
        return
    for cfg in configs(ctx.thorough) + configs(True):
        if cfg[0] == case['config']:
            def tup(x):
                return tuple(x)
            one(ctx, cfg, [tup(o) for o in case['path']], tup(case['op']))
            return
