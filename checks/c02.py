"""C02: threads that use the in-memory data service at the same time."""
import sched
sched.install()
import itertools
import traceback
import mclib
import c01
from c01 import Ref, Impl, ONE, MANY, ZERO, SOLO, CT
from odschema import Model, SIMPLE
import pyslet.odata2.csdl as edm
import pyslet.odata2.memds as memds
import pyslet.rfc2616 as http

FILES = ('memds.py',)

PAIR = dict(A=SIMPLE, B=SIMPLE)


def pair(m0, m1):
    return PAIR, [(('A', m0, 'toB'), ('B', m1, 'toA'))]


def A(k):
    return ('ins', 'A', k, 'a')


def B(k):
    return ('ins', 'B', k, 'a')

#: name, model, operations that set the scene, one list of operations per thread
SCENARIOS = [
    ('ins-ins', pair(2, 2), [], [[A(1)], [A(1)]]),
    ('del-del', pair(2, 2), [A(1)], [[('del', 'A', 1)], [('del', 'A', 1)]]),
    ('link01-link01', pair(0, 2), [A(1), A(2), B(1)], [[('link', 0, 0, 1, 1)], [('link', 0, 0, 2, 1)]]),
    ('link01-back', pair(0, 0), [A(1), A(2), B(1)], [[('link', 0, 0, 1, 1)], [('link', 0, 1, 1, 2)]]),
    ('link-delsource', pair(2, 2), [A(1), B(1)], [[('link', 0, 0, 1, 1)], [('del', 'A', 1)]]),
    ('link-deltarget', pair(2, 2), [A(1), B(1)], [[('link', 0, 0, 1, 1)], [('del', 'B', 1)]]),
    ('replace-replace', pair(2, 0), [A(1), B(1), B(2)], [[('replace', 0, 0, 1, 1)], [('replace', 0, 0, 1, 2)]]),
    ('replace-unlink', pair(2, 0), [A(1), B(1), B(2), ('link', 0, 0, 1, 1)],
     [[('replace', 0, 0, 1, 2)], [('unlink', 0, 0, 1, 1)]]),
    ('replace-link', pair(0, 2), [A(1), A(2), B(1)], [[('replace', 0, 0, 1, 1)], [('link', 0, 0, 2, 1)]]),
    ('replace-deltarget', pair(2, 0), [A(1), B(1), B(2), ('link', 0, 0, 1, 1)],
     [[('replace', 0, 0, 1, 2)], [('del', 'B', 2)]]),
    ('navins-navins', pair(2, 0), [A(1)], [[('navins', 0, 0, 1, 1)], [('navins', 0, 0, 1, 2)]]),
    ('insbind-cascade', pair(1, 2), [A(1)], [[('insbind', 0, 1, 1, 1, False)], [('del', 'A', 1)]]),
    ('cascade-cascade', pair(1, 1), [('insbind', 0, 0, 1, 1, True)], [[('del', 'A', 1)], [('del', 'B', 1)]]),
    ('deep-deep', pair(1, 1), [], [[('insbind', 0, 0, 1, 1, True)], [('insbind', 0, 1, 1, 2, True)]]),
    ('unlink-unlink', pair(2, 2), [A(1), B(1), ('link', 0, 0, 1, 1)],
     [[('unlink', 0, 0, 1, 1)], [('unlink', 0, 1, 1, 1)]]),
    ('updbind-updbind', pair(0, 0), [A(1), A(2), B(1)], [[('updbind', 0, 0, 1, 1)], [('updbind', 0, 0, 2, 1)]]),
    ('upd-del', pair(2, 2), [A(1)], [[('upd', 'A', 1, 'b')], [('del', 'A', 1), ('ins', 'A', 1, 'c')]]),
    ('three-links', pair(0, 2), [A(1), A(2), B(1)],
     [[('link', 0, 0, 1, 1)], [('link', 0, 0, 2, 1)], [('del', 'B', 1)]]),
    ('two-each', pair(0, 2), [A(1), A(2), B(1)],
     [[('link', 0, 0, 1, 1), ('unlink', 0, 0, 1, 1)], [('link', 0, 0, 2, 1), ('unlink', 0, 0, 2, 1)]]),
]


def outcomes(model, setup, threads):
    """Every (results per thread, final state) that some sequential order explains, after
    the missing entities have been inserted again."""
    out = []
    base = Ref(model)
    for op in setup:
        assert base.apply(op), op
    ids = []
    for i, t in enumerate(threads):
        ids += [i] * len(t)
    for order in set(itertools.permutations(ids)):
        ref = base.copy()
        pos = [0] * len(threads)
        res = [[] for t in threads]
        for i in order:
            res[i].append(ref.apply(threads[i][pos[i]]))
            pos[i] += 1
        state = ref.observe()
        probe(model, ref)
        o = (res, state, ref.observe())
        if o not in out:
            out.append(o)
    return out


def probe(model, x):
    """Inserting what was deleted must not bring anything back."""
    for s in sorted(model.sets):
        if not [1 for ends in model.assocs for side in (0, 1) if ends[side][0] == s and ends[1 - side][1] == ONE]:
            for k in (1, 2):
                x.apply(('ins', s, k, 'p'))


def scenario(ctx, name, bound, mine):
    name, (sets, assocs), setup, threads = [s for s in SCENARIOS if s[0] == name][0]
    model = Model(sets, assocs)
    doc = model.load()
    expected = outcomes(model, setup, threads)

    def make():
        impl = Impl(model, doc)
        for op in setup:
            assert impl.apply(op), op

        def body(ops):
            def f():
                return [impl.apply(op) for op in ops]
            return f
        return [body(ops) for ops in threads], impl

    def check(ex, impl, dev):
        key = '%s: %s' % (name, '')
        if ex.failure:
            ctx.violation(name + ': ' + ex.failure, 'schedule %s' % sorted(dev.items()))
            return
        for i, err in enumerate(ex.errors):
            if err:
                ctx.violation('%s: thread %i: %s' % (name, i, err[0].__name__),
                              'schedule %s\n%s' % (sorted(dev.items()), ''.join(traceback.format_exception(*err))[-2000:]))
                return
        results = ex.results
        try:
            state = impl.observe()
            probe(model, impl)
            later = impl.observe()
        except Exception, e:
            ctx.violation('%s: broken afterwards: %s' % (name, type(e).__name__), 'schedule %s\n%s' % (sorted(dev.items()), traceback.format_exc()[-2000:]))
            return
        ctx.outcome((name, repr(results), repr(later)))
        if (results, state, later) not in expected:
            ctx.violation('%s: not linearizable: %s' % (name, results), 'schedule %s\nresults %s\nstate %s\nafter inserting what '
                          'is missing %s\nno order of the operations explains this' % (sorted(dev.items()), results, state, later))
    return sched.explore(make, check, FILES, bound, ctx, name, mine)


# --- the scenarios that do not fit the reference of C01

def set_v(s, k):
    with s.open() as c:
        c.Expand(None, {'V': None})
        e = c[k]
        e['V'].SetFromValue('s')
        c.UpdateEntity(e)


def set_n(s, k):
    with s.open() as c:
        c.Expand(None, {'N': None})
        e = c[k]
        e['N'].SetFromValue(5)
        c.UpdateEntity(e)


def auto(s, k):
    with s.open() as c:
        e = c.NewEntity()
        e['V'].SetFromValue(k)
        c.InsertEntity(e)
        return e.Key()


def stream(s, k):
    with s.open() as c:
        try:
            c[k].SetStreamFromGenerator(http.MediaType('text', 'plain'), iter(['abc']))
            return True
        except (KeyError, edm.EDMError):
            return False


def delete(s, k):
    with s.open() as c:
        del c[k]


def listing(s, k):
    with s.open() as c:
        return [(e.Key(), e['V'].value) for e in c.itervalues()]


def insert(s, k):
    with s.open() as c:
        e = c.NewEntity()
        e['K'].SetFromValue(k)
        e['V'].SetFromValue('v')
        c.InsertEntity(e)


def final(s):
    with s.open() as c:
        return dict((e.Key(), (e['V'].value, e['N'].value, ''.join(e.GetStreamGenerator()))) for e in c.itervalues())


def judge_updates(r, s):
    return final(s) == {0: ('s', 5, '')}


def judge_auto(r, s):
    f = final(s)
    return r[0] != r[1] and f == {0: ('v', None, ''), r[0]: ('x', None, ''), r[1]: ('y', None, '')}


def judge_stream(r, s):
    gone = final(s)
    insert(s, 0)
    return gone == {} and final(s) == {0: ('v', None, '')}


def judge_listing(r, s):
    return final(s) == {1: ('v', None, ''), 2: ('v', None, '')} and (1, 'v') in r[0] and \
        set(r[0]) <= set([(0, 'v'), (1, 'v'), (2, 'v')]) and len(set(r[0])) == len(r[0])

SOLOS = [
    ('two-updates', (0,), [(set_v, 0), (set_n, 0)], judge_updates),
    ('auto-auto', (0,), [(auto, 'x'), (auto, 'y')], judge_auto),
    ('stream-del', (0,), [(stream, 0), (delete, 0)], judge_stream),
    ('list-insdel', (0, 1), [(listing, None), (lambda s, k: (delete(s, 0), insert(s, 2)), None)], judge_listing),
]


def solo(ctx, name, bound, mine):
    name, keys, bodies, judge = [s for s in SOLOS if s[0] == name][0]
    doc = Model({'D': SOLO}, [], extra=CT, set_attrs={'D': 'm:HasStream="true"'}).load()

    def make():
        s = c01.Solo(doc)
        for k in keys:
            insert(s, k)

        def body(f, k):
            return lambda: f(s, k)
        return [body(f, k) for f, k in bodies], s

    def check(ex, s, dev):
        sch = 'schedule %s' % sorted(dev.items())
        if ex.failure:
            ctx.violation(name + ': ' + ex.failure, sch)
            return
        for i, err in enumerate(ex.errors):
            if err:
                ctx.violation('%s: thread %i: %s' % (name, i, err[0].__name__),
                              sch + '\n' + ''.join(traceback.format_exception(*err))[-2000:])
                return
        results = ex.results
        ctx.outcome((name, repr(results)))
        if not judge(results, s):
            ctx.violation(name + ': not linearizable', '%s\nresults %s state %s' % (sch, results, final(s)))
    return sched.explore(make, check, FILES, bound, ctx, name, mine)


# --- reading while the links and entities change

def L(k, t):
    return ('link', 0, 0, k, t)

ONE2 = [A(1), B(1), B(2), L(1, 1), L(1, 2)]
ONLY = [A(1), B(1), L(1, 1)]
STAR = [A(1), A(2), B(1), L(1, 1), L(2, 1)]
# name, multiplicities, setup, side and key of the source, what the other thread does, keys that every reader
# must see, keys that it may see
READS = [
    ('del', (2, 2), ONE2, 0, 1, [('del', 'B', 2)], [1], [2]),
    ('unlink', (2, 2), ONE2, 0, 1, [('unlink', 0, 0, 1, 2)], [1], [2]),
    ('del-only', (2, 2), ONLY, 0, 1, [('del', 'B', 1)], [], [1]),
    ('del-source', (2, 2), ONLY, 0, 1, [('del', 'A', 1)], [], [1]),
    ('rdel-only', (2, 2), ONLY, 1, 1, [('del', 'A', 1)], [], [1]),
    ('rdel-source', (2, 2), ONLY, 1, 1, [('del', 'B', 1)], [], [1]),
    ('rdel', (2, 2), STAR, 1, 1, [('del', 'A', 2)], [1], [2]),
    ('runlink', (2, 2), STAR, 1, 1, [('unlink', 0, 0, 2, 1)], [1], [2]),
    ('link', (2, 2), [A(1), B(1)], 0, 1, [L(1, 1)], [], [1]),
    ('rlink', (2, 2), [A(1), B(1)], 1, 1, [L(1, 1)], [], [1]),
    ('replace', (0, 0), [A(1), B(1), B(2), L(1, 1)], 0, 1, [('replace', 0, 0, 1, 2)], [], [1, 2]),
    ('cascade', (1, 2), [A(1), ('insbind', 0, 1, 1, 1, False)], 0, 1, [('del', 'A', 1)], [], [1]),
]
KINDS = ('navigate', 'expand', 'len', 'get')


def reading(ctx, name, bound, mine):
    kind, rname = name.split('-', 1)
    rname, mult, setup, side, k, writes, must, may = [r for r in READS if r[0] == rname][0]
    model = Model(*pair(*mult))
    doc = model.load()

    def make():
        impl = Impl(model, doc)
        for op in setup:
            assert impl.apply(op), op
        e, nav = impl.nav(0, side, k)

        def navigate():
            with e[nav].OpenCollection() as c:
                return [x.Key() for x in c.itervalues()]

        def expand():
            with impl.open('AB'[side]) as c:
                c.Expand({nav: None})
                out = []
                for x in c.itervalues():
                    if x.Key() != k:
                        continue
                    with x[nav].OpenCollection() as nc:
                        out += nc.keys()
                return out

        def length():
            with e[nav].OpenCollection() as c:
                return len(c)

        def get():
            out = []
            with e[nav].OpenCollection() as c:
                for t in sorted(must + may):
                    try:
                        assert c[t].Key() == t
                        out.append(t)
                    except KeyError:
                        pass
            return out
        return [dict(navigate=navigate, expand=expand, len=length, get=get)[kind],
                lambda: [impl.apply(op) for op in writes]], impl

    def check(ex, impl, dev):
        sch = 'schedule %s' % sorted(dev.items())
        if ex.failure:
            ctx.violation(name + ': ' + ex.failure, sch)
            return
        for i, err in enumerate(ex.errors):
            if err:
                ctx.violation('%s: thread %i: %s' % (name, i, err[0].__name__),
                              sch + '\n' + ''.join(traceback.format_exception(*err))[-2000:])
                return
        r = ex.results[0]
        if kind == 'len':
            # before or after, nothing in between
            after = len(must) + (len(may) if rname.endswith('link') and not rname.endswith('unlink') else 0)
            before = len(must) + (0 if rname in ('link', 'rlink') else len(may))
            if rname == 'replace':
                before = after = 1
            ok = r in (before, after)
        else:
            ok = len(set(r)) == len(r) and set(must) <= set(r) <= set(must + may)
        ctx.outcome((name, repr(r)))
        if not (ex.results[1] == [True] and ok):
            ctx.violation(name + ': read %s' % (r,), sch + '\nthe other thread: %s' % ex.results[1])
    return sched.explore(make, check, FILES, bound, ctx, name, mine)


def all_scenarios():
    return [(s[0], scenario) for s in SCENARIOS] + [(s[0], solo) for s in SOLOS] + [('%s-%s' % (kind, r[0]), reading) for r in READS for kind in KINDS]


def explore(ctx):
    bound = 2 if ctx.thorough else 1
    counts = {}
    for name, fn in all_scenarios():
        n = fn(ctx, name, bound, ctx.mine)
        ctx.state(name)
        ctx.bounds['n_schedules_' + name] = n
        ctx.traces += n
    ctx.bounds['preemption_bound'] = bound
    ctx.sample('scenario insbind-cascade: one thread inserts B[1] bound to A[1], which must have one A, while another deletes A[1]')


def replay(ctx, case):
    name = case['scenario']
    dev = dict([tuple(x) for x in case['schedule']])

    def once(make, check, files, bound, ctx, label, mine):
        bodies, context = make()
        check(sched.Execution(bodies, dev, files), context, dev)
        return 1
    sched.explore = once
    for n, fn in all_scenarios():
        if n == name:
            fn(ctx, name, 0, None)
