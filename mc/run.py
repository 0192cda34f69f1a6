#!/usr/bin/env python3
"""Driver: run.py PROPERTY [--replay FILE] [--shards N]

Starts the shards of one check under Jython, merges what they covered, compares what
failed with known_findings.json, writes evidence/PROPERTY.json and prints VIOLATION and
KNOWN-FINDING lines.  Exit 0: held; 1: violated; 2: the check itself failed."""

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'mc'))
from registry import CHECKS  # noqa: E402


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    replay = None
    nshards = None
    while args:
        a = args.pop(0)
        if a == '--replay':
            replay = os.path.abspath(args.pop(0))
        elif a == '--shards':
            nshards = int(args.pop(0))
        else:
            sys.exit('unknown argument ' + a)
    check = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if nshards is None:
        nshards = 1 if replay else check.get('shards', 8)
    limit = check.get('limit', 800) if tier == 'quick' else check.get('thorough_limit', 4 * 3600)
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    listed = {k['key']: k for k in known['findings'] if k['property'] == prop}
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    procs = []
    try:
        env = dict(os.environ)
        env['MC_KNOWN'] = '\n'.join(listed)
        env['MC_WORK'] = work
        env['TMPDIR'] = work
        env['MC_XMX'] = check.get('xmx', '1500m')
        env.setdefault('MC_REPO', '/repo')
        pre = check.get('pre')
        if pre:
            # a python3 step that prepares oracle data for the workers
            rc = subprocess.call([sys.executable, os.path.join(ROOT, 'checks', pre), work, tier], env=env)
            if rc:
                print('pre step failed: %s' % rc)
                sys.exit(2)
        if check.get('java'):
            # the controlled scheduler
            classes = os.path.join(work, 'classes')
            os.mkdir(classes)
            jdir = os.path.join(ROOT, 'mc', 'java')
            rc = subprocess.call(['javac', '-nowarn', '-cp', '/usr/share/java/jython.jar', '-d', classes] +
                                 [os.path.join(jdir, f) for f in sorted(os.listdir(jdir))], env=env)
            if rc:
                print('javac failed: %s' % rc)
                sys.exit(2)
            env['MC_CP'] = classes
        for i in range(nshards):
            out = os.path.join(work, 'out%i.json' % i)
            log = open(os.path.join(work, 'log%i' % i), 'w')
            cmd = [os.path.join(ROOT, 'mc', 'jy.sh'), os.path.join(ROOT, 'mc', 'mclib.py'),
                   check['module'], prop, out, str(i), str(nshards), tier, str(seed)]
            if replay:
                cmd.append(replay)
            procs.append((subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=log,
                                           stderr=subprocess.STDOUT, cwd=work, start_new_session=True), out, log.name))
        deadline = t0 + limit
        results, errors = [], []
        for i, (p, out, log) in enumerate(procs):
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                errors.append('shard %i: no result after %i s' % (i, limit))
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            if os.path.exists(out):
                results.append(json.load(open(out)))
                if results[-1]['error']:
                    errors.append('shard %i: %s' % (i, results[-1]['error']))
            else:
                errors.append('shard %i ended with %s:\n%s' % (i, p.returncode, open(log).read()[-3000:]))
        if os.environ.get('MC_LOGS'):
            for i, (p, out, log) in enumerate(procs):
                sys.stderr.write(open(log).read())
    finally:
        for p, out, log in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        shutil.rmtree(work, ignore_errors=True)

    violations, seen = [], set()
    for r in results:
        for v in r['violations']:
            if v['key'] not in seen:
                seen.add(v['key'])
                violations.append(v)
    # shortest first: the first counterexample printed is the easiest to read
    violations.sort(key=lambda v: (len(json.dumps(v['case'])), v['key']))
    states, outcomes = set(), set()
    total = {'evaluations': 0, 'transitions': 0, 'traces': 0}
    samples, bounds, notes = [], {}, []
    for r in results:
        states.update(r['states'])
        outcomes.update(r['outcomes'])
        for k in total:
            total[k] += r[k]
        for s in r['samples']:
            if len(samples) < 6:
                samples.append(s)
        for k, v in r['bounds'].items():
            # counts are summed over shards, everything else is a bound all shards share
            if k.startswith('n_'):
                bounds[k] = bounds.get(k, 0) + v
            else:
                bounds[k] = v
        for n in r['notes']:
            if n not in notes:
                notes.append(n)
    wall = time.time() - t0
    level = check['level']
    complete = not errors and not any(n.startswith('stopped') for n in notes)
    cov = {'exhaustive': complete, 'bounds': bounds, 'distinct_outcomes': len(outcomes), 'rule': check['rule'],
           'samples': samples, 'shards': nshards}
    if notes:
        cov['notes'] = notes
    if level == 'model_checking':
        cov.update(states=len(states), transitions=total['transitions'],
                   traces_validated_against_impl=total['traces'])
    else:
        cov.update(evaluations=total['evaluations'], distinct_nontrivial=len(states) or len(outcomes))
    new = [v for v in violations if v['key'] not in listed]
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
                'assumptions': check.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    edir = os.path.join(ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    if not replay:
        with open(os.path.join(edir, prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    for v in violations:
        if v['key'] in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[v['key']]['what']))
    rdir = os.path.join(edir, 'replay')
    if not replay and os.path.isdir(rdir):
        for f in os.listdir(rdir):
            if f.startswith(prop + '-'):
                os.remove(os.path.join(rdir, f))
    if new:
        os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(new[:int(os.environ.get('MC_SHOW', '10'))]):
        path = replay or os.path.join(rdir, '%s-%i.json' % (prop, i))
        if not replay:
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': v['key'], 'detail': v['detail'], 'case': v['case']}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  key: %s' % v['key'])
        for line in v['detail'].splitlines()[:12]:
            print('  | ' + line)
    print('%s %s: %i evaluations, %i states, %i transitions, %i distinct outcomes, %i violations, %i listed, %.1f s%s' % (
        prop, tier, total['evaluations'], len(states), total['transitions'], len(outcomes), len(new),
        len(violations) - len(new), wall, '' if complete else ' (INCOMPLETE)'))
    if os.environ.get('MC_LOGS'):
        print('shard seconds: %s' % ['%.0f' % r['wall'] for r in results])
    for e in errors:
        print('ERROR ' + e)
    if new:
        sys.exit(1)
    if errors:
        sys.exit(2)
    sys.exit(0)


main()
