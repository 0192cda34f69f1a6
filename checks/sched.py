"""Python side of the controlled scheduler (mc/java/Sched.java): enumerates all schedules
of a scenario with at most `bound` preemptions."""
import sys
import threading
import mclib
import Sched
from java.lang import String
from java.util import ArrayList
from org.python.core import Py
import jarray


class Diverged(Exception):
    pass


def install():
    """Must run before the code under test is imported: its locks become scheduling points.
    Outside an execution they behave like ordinary locks."""
    threading.RLock = lambda *a, **k: Sched.Lock(True)
    threading.Lock = lambda *a, **k: Sched.Lock(False)


class Execution(object):

    def __init__(self, bodies, deviations, files, horizon=20000):
        n = len(bodies)
        self.results = [None] * n
        self.errors = [None] * n
        s = Sched(n, jarray.array(list(files), String), horizon)
        for p, t in deviations.items():
            s.deviate(p, t)

        def wrap(i, body):
            def f():
                try:
                    self.results[i] = body()
                except Exception:
                    self.errors[i] = sys.exc_info()
            return f
        fns = ArrayList()
        for i, b in enumerate(bodies):
            fns.add(Py.java2py(wrap(i, b)))
        out = s.run(fns)
        self.failure = s.failure
        for i, r in enumerate(out):
            if isinstance(r, (str, unicode)) and not self.errors[i]:
                self.errors[i] = (RuntimeError, RuntimeError(r), None)
        self.points = [(p[0], p[1], tuple(p[2:])) for p in s.points]


def explore(make, check, files, bound, ctx, label, mine=None):
    """make() returns (bodies, context) for a fresh execution; check(execution, context,
    deviations) judges it.  mine() says whether the next first-level branch is ours.
    Returns the number of schedules run.  The first execution is repeated and must come out
    the same."""
    count = [0]

    def run(dev, spent, last):
        bodies, context = make()
        ctx.case({'scenario': label, 'schedule': sorted(dev.items())})
        ex = Execution(bodies, dev, files)
        if ex.failure and ex.failure.startswith('diverged'):
            raise Diverged(label + ' ' + ex.failure + ' ' + repr(dev))
        check(ex, context, dev)
        count[0] += 1
        ctx.transitions += len(ex.points)
        for n in range(last + 1, len(ex.points)):
            me, forced, others = ex.points[n]
            cost = spent if forced else spent + 1
            if cost > bound:
                continue
            for to in (others[1:] if forced else others):
                if last == -1 and mine is not None and not mine():
                    continue
                d = dict(dev)
                d[n] = to
                run(d, cost, n)
        return ex
    n = len(make()[0])
    for start in range(n):
        a = run({-1: start}, 0, -1)
        b = Execution(make()[0], {-1: start}, files)
        if a.points != b.points:
            raise Diverged('%s: the same schedule ran differently the second time' % label)
    return count[0]
