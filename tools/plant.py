#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turns planted-bug specifications into /verif/seeded/<id>/ and tries
them out on a scratch copy of /repo: build, tests, demonstration, and the property's check.

SPEC.py defines BUGS, a list of dicts: id, property, file (below /repo), edits [(old,new)...],
needs, breaks, demo (Python 2 text; must raise or exit nonzero on the planted tree)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/sh
# run with cwd /repo
HERE=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH="$PWD/pyslet:/opt/vp/runner"
exec /opt/vp/runner/jython.sh "$HERE/demo.py"
'''
HEAD = '''import sys
sys.dont_write_bytecode = True
import compat
compat.install()
import logging
logging.disable(logging.CRITICAL)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            copy = os.path.join(tmp, 'repo')
            sh('cp -a /repo %s' % copy)
            sh('git -C %s checkout -q -- .' % copy)
            files = b.get('files') or [(b['file'], b['edits'])]
            bad = False
            for fn, edits in files:
                path = os.path.join(copy, fn)
                data = open(path, 'rb').read()
                for old, new in edits:
                    old, new = old.encode(), new.encode()
                    if b'\r\n' in data and b'\r\n' not in old:
                        old, new = old.replace(b'\n', b'\r\n'), new.replace(b'\n', b'\r\n')
                    if data.count(old) != 1:
                        print('%s: %i matches of %r' % (b['id'], data.count(old), old))
                        bad = True
                    data = data.replace(old, new)
                open(path, 'wb').write(data)
            if bad:
                continue
            diff = subprocess.run('git -C %s diff --binary' % copy, shell=True, stdout=subprocess.PIPE).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(b.get('sh', SH))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            if 'demo' in b:
                open(os.path.join(d, 'demo.py'), 'w').write(HEAD + b['demo'])
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            good = sh(os.path.join(d, 'demo.sh'), cwd='/repo')
            r = sh(os.path.join(d, 'demo.sh'), cwd=copy)
            line = '%s: demo clean=%i planted=%i' % (b['id'], good.returncode, r.returncode)
            if good.returncode:
                print(good.stdout[-1500:])
            last = (r.stdout.strip().splitlines() or [''])[-1]
            c = sh('MC_REPO=%s python3 %s/mc/run.py %s' % (copy, ROOT, b['property']))
            v = re.findall(r'VIOLATION.*\n  key: (.*)', c.stdout)
            line += ' check=%i (%s)' % (c.returncode, v[0][:100] if v else c.stdout[-300:])
            if not os.environ.get('NOTESTS'):
                script = open('/opt/vp/test.sh').read().replace('/repo', copy).replace('/opt/vp/work', tmp + '/work').replace('-k 10 600', '-k 10 90')
                open(tmp + '/test.sh', 'w').write(script)
                sh('bash %s/test.sh %s/t.json' % (tmp, tmp))
                t = set(json.load(open(tmp + '/t.json'))['passed'])
                miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in t]
                line += ' tests missing=%s' % ((miss[:4], len(miss)),)
            print(line, '|', last[:150], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
