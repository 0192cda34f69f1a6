"""Worker side of the model checker (Python 2.7 under Jython).

A worker is started as  mclib.py MODULE PROPERTY OUT SHARD NSHARDS TIER SEED [REPLAY]
It imports /verif/checks/MODULE.py and calls its explore(ctx), which enumerates the
part of the bounded space that belongs to this shard, or, with REPLAY, its
replay(ctx,case) with the one case stored in that file.  What was covered and what
failed goes to OUT as JSON; the driver (run.py) merges the shards."""

import sys
sys.dont_write_bytecode = True
import os
import json
import time
import traceback
import hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')

import compat
compat.install()

sys.path.insert(0, os.path.join(REPO, 'pyslet'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))

from java.lang import Runtime, Throwable, StackOverflowError, OutOfMemoryError

MAX_VIOLATIONS = int(os.environ.get('MC_MAX_VIOLATIONS', '12'))


class StopExploring(Exception):
    pass


class Context(object):

    def __init__(self, prop, out, shard, nshards, tier, seed):
        self.prop = prop
        self.out = out
        self.shard = shard
        self.nshards = nshards
        self.tier = tier
        self.seed = seed
        self.thorough = (tier == 'thorough')
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.vkeys = set()
        self.bounds = {}
        self.notes = []
        self.current = None
        self.started = time.time()
        self.case_started = time.time()
        self.index = -1
        self.case_limit = 120
        self.lastflush = time.time()
        self.known = set(filter(None, os.environ.get('MC_KNOWN', '').split('\n')))
        self.unlisted = 0

    # --- sharding
    def mine(self):
        """Numbers the cases in enumeration order; true if this one is ours."""
        self.index += 1
        return self.index % self.nshards == self.shard

    # --- bookkeeping
    def case(self, case):
        """Starts one evaluation.  *case* must be JSON-able: it is what a replay gets."""
        self.current = case
        self.case_started = time.time()
        self.evaluations += 1

    def state(self, canonical):
        """Adds a canonical state, returns True if this shard had not seen it."""
        if isinstance(canonical, unicode):
            canonical = canonical.encode('utf-8')
        elif not isinstance(canonical, str):
            canonical = repr(canonical)
        h = hashlib.md5(canonical).hexdigest()[:16]
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            if isinstance(o, unicode):
                o = o.encode('utf-8')
            elif not isinstance(o, str):
                o = repr(o)
            self.outcomes.add(hashlib.md5(o).hexdigest()[:12])

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, detail, case=None):
        """*key* identifies the failing input, call site or history."""
        key = text(key)
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        if case is None:
            case = self.current
        self.violations.append({'key': key, 'detail': text(detail)[:4000], 'case': case})
        if key not in self.known:
            self.unlisted += 1
            if self.unlisted >= MAX_VIOLATIONS:
                raise StopExploring

    def check(self, cond, key, detail, case=None):
        if not cond:
            self.violation(key, detail, case)
        return cond

    def run(self, case, fn, *args):
        """Evaluates one case; an exception that escapes fn is itself a violation."""
        self.case(case)
        try:
            return fn(*args)
        except StopExploring:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except:
            self.violation('exception:' + short(case), traceback.format_exc()[-3000:])
            return None

    def finish(self, error=None):
        f = open(self.out + '.tmp', 'w')
        json.dump({
            'shard': self.shard, 'evaluations': self.evaluations,
            'transitions': self.transitions, 'traces': self.traces,
            'states': sorted(self.states), 'outcomes': sorted(self.outcomes),
            'samples': self.samples, 'violations': self.violations,
            'bounds': self.bounds, 'notes': self.notes, 'error': error,
            'wall': time.time() - self.started}, f)
        f.close()
        os.rename(self.out + '.tmp', self.out)


def text(x):
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        return x.decode('utf-8', 'replace')
    return repr(x).decode('utf-8', 'replace')


def short(case):
    s = json.dumps(case, sort_keys=True)
    if len(s) > 300:
        s = s[:260] + '#' + hashlib.md5(s).hexdigest()[:12]
    return s


def watchdog(ctx, done):
    """A case that normally takes milliseconds and has not ended after case_limit
    seconds is reported as not terminating."""
    import threading

    def watch():
        while True:
            time.sleep(2)
            if done:
                return
            if ctx.current is not None and time.time() - ctx.case_started > ctx.case_limit:
                try:
                    ctx.violation('hang:' + short(ctx.current), 'no answer after %i s' % ctx.case_limit)
                except StopExploring:
                    pass
                ctx.finish()
                Runtime.getRuntime().halt(0)
    t = threading.Thread(target=watch)
    t.setDaemon(True)
    t.start()


def main(argv):
    module, prop, out, shard, nshards, tier, seed = argv[:7]
    ctx = Context(prop, out, int(shard), int(nshards), tier, int(seed))
    import logging
    logging.basicConfig(level=logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    done = []
    error = None
    try:
        m = __import__(module)
        ctx.case_started = time.time()
        watchdog(ctx, done)
        if len(argv) > 7:
            f = open(argv[7])
            rec = json.load(f)
            f.close()
            ctx.case(rec['case'])
            try:
                m.replay(ctx, rec['case'])
            except StopExploring:
                raise
            except:
                ctx.violation('exception:' + short(rec['case']), traceback.format_exc()[-3000:])
        else:
            m.explore(ctx)
    except StopExploring:
        ctx.notes.append('stopped after %i violations' % MAX_VIOLATIONS)
    except:
        error = traceback.format_exc()
        if os.path.join(REPO, '') in error:
            # the code under test failed where the check relies on it
            try:
                ctx.violation('exception:explore', error[-3000:])
            except StopExploring:
                pass
            error = None
            ctx.notes.append('stopped by an exception')
    done.append(1)
    ctx.finish(error)
    sys.stdout.flush()
    sys.stderr.flush()
    Runtime.getRuntime().halt(0)


if __name__ == '__main__':
    # the checks import this file by name: make sure that there is only one of it
    sys.modules['mclib'] = sys.modules['__main__']
    main(sys.argv[1:])
