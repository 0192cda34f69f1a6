#!/usr/bin/env python3
"""mutate.py CHECK N [SEED] [FILE...]: makes N small changes, one at a time, to the files a property is anchored in (lines of the
original repository only) in a scratch copy, runs the quick check on each and prints those it does not report"""
import os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
import registry
check, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else '1'
entry = registry.CHECKS[check]
files = sys.argv[4:] or entry['files']
copy = '/tmp/mut-%s' % check
shutil.rmtree(copy, ignore_errors=True)
subprocess.check_call(['cp', '-a', os.environ.get('MC_BASE', '/repo'), copy])
rules = [(r'==', '!='), (r'!=', '=='), (r'(?<![<>=!-])<(?![<=>])', '<='), (r'<=', '<'), (r'(?<![<>=-])>(?![>=])', '>='), (r'>=', '>'), (r'\band\b', 'or'), (r'\bor\b', 'and'),
         (r'\bnot ', ''), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\+', '-'), (r'\b1\b', '0'), (r'\b0\b', '1'), (r'\bif (.*):$', r'if False:'), (r'\bif (.*):$', 'if True:'),
         (r'\bis None\b', 'is not None'), (r'\bis not None\b', 'is None'), (r'\bbreak$', 'continue'), (r'^(\t+)(self\.[\w.]+\(.*\)|self\.[\w.]+=.*|[\w.]+\.append\(.*\)|[\w.]+=.*)$', r'\1pass'),
         (r'\belif (.*):$', 'elif False:'), (r"\[1:\]", "[2:]"), (r"\[0\]", "[-1]"), (r"\[-1\]", "[0]")]
sites = []
for f in files:
    p = os.path.join(copy, f)
    blame = subprocess.run(['git', '-C', copy, 'blame', '-s', '-l', f], capture_output=True).stdout.decode('utf-8', 'replace').split('\n')
    lines = open(p, newline='', encoding='utf-8', errors='surrogateescape').read().split('\n')
    doc = False
    for i, line in enumerate(lines):
        q = line.count('"""')
        was = doc
        if q % 2:
            doc = not doc
        if was or q or line.strip().startswith('#') or not line.startswith('\t\t') or 'print' in line or 'raise' in line or 'log.append' in line or 'import' in line:
            continue
        for r, (a, b) in enumerate(rules):
            for m in re.finditer(a, line.rstrip('\r')):
                sites.append((f, i, m.span(), b, r))
random.seed(seed)
random.shuffle(sites)
done = killed = 0
for f, i, (s, e), b, r in sites:
    if done == n:
        break
    p = os.path.join(copy, f)
    text = open(p, newline='', encoding='utf-8', errors='surrogateescape').read()
    lines = text.split('\n')
    old = lines[i]
    lines[i] = old[:s] + re.sub(rules[r][0], b, old[s:e]) + old[e:]
    if lines[i] == old or re.search(rules[r][0], old[s:e]) is None:
        continue
    open(p, 'w', newline='', encoding='utf-8', errors='surrogateescape').write('\n'.join(lines))
    done += 1
    env = dict(os.environ, MC_REPO=copy, MC_MAX_VIOLATIONS='1')
    env.setdefault('VERIF_TIER', 'quick')
    try:
        x = subprocess.run(['python3', os.path.join(V, 'mc/run.py'), check], env=env, capture_output=True, timeout=300)
        code = x.returncode
    except subprocess.TimeoutExpired:
        code = 'timeout'
    open(p, 'w', newline='', encoding='utf-8', errors='surrogateescape').write(text)
    if code == 0:
        print('SURVIVED %s:%i\n  - %s\n  + %s' % (f, i + 1, old.strip(), lines[i].strip()), flush=True)
    else:
        killed += 1
print('%s: %i of %i detected' % (check, killed, done))
shutil.rmtree(copy, ignore_errors=True)
