bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(t['passed']); print(len(p), 'missing:', [x for x in b['stable'] if x not in p])
P
