#!/usr/bin/env python3
"""mkseed.py SPEC.py...: turns planted-bug specs into /verif/seeded/<id>/ and confirms each.

A spec file defines S, a list of dicts: id, property, edits [(file, old, new)],
needs, breaks, pkg (etx|dag|cli), test (Go source of the demonstration).
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, cwd, timeout=300):
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour holds. Run with the repository as working directory.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
overlay="$(mktemp)"
printf '{"Replace":{"%%s/%(dir)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$overlay"
%(env)s timeout 250 go test -vet=off -count=1 %(flags)s -overlay "$overlay" -run '^TestDemo$' ./%(dir)s
rc=$?
rm -f "$overlay"
exit $rc
'''
def stable():
    for k in ('stable_pass', 'stable', 'passed', 'tests'):
        if k in BASE: return set(BASE[k])
    raise SystemExit('baseline keys: %s' % list(BASE))
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    fast = '-n' in sys.argv
    for spec in args:
        ns = {}; exec(open(spec).read(), ns)
        for s in ns['S']: one(s, fast)
def one(s, fast):
    d = '/tmp/seedwork'; shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    blame = {}
    for f, old, new in s['edits']:
        p = os.path.join(d, f); t = open(p).read()
        if t.count(old) != 1: print(s['id'], 'BAD: %d matches in %s' % (t.count(old), f)); return
        open(p, 'w').write(t.replace(old, new))
    rc, diff = sh('git diff', d)
    # lines removed must be original
    for f in {e[0] for e in s['edits']}:
        rc, u = sh('git diff -U0 %s' % f, d)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', u, re.M):
            n = int(m.group(2)) if m.group(2) else 1
            if n == 0: continue
            rc, b = sh('git blame -s -L %s,+%d HEAD -- %s' % (m.group(1), n, f), d)
            for l in b.splitlines():
                if not l.startswith('^'): print(s['id'], 'NOT ORIGINAL:', l)
    out = os.path.join(V, 'seeded', s['id']); os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    dirs = {'etx': 'pkg/etx', 'dag': 'pkg/dag', 'cli': 'cmd/cli'}[s['pkg']]
    open(out + '/demo.sh', 'w').write(DEMO % {'dir': dirs, 'flags': s.get('flags', ''), 'env': s.get('env', '')}); os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo_test.go.txt', 'w').write(s['test'].lstrip())
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    bad = []
    if not fast:
        rc, o = sh('go build ./... ', d)
        if rc: bad.append('build: ' + o[:400])
        rc, o = sh('go test -json -vet=off -count=1 ./... > /tmp/seedlog.json; python3 /opt/vp/results.py /tmp/seedout.json gojson:/tmp/seedlog.json', d)
        res = json.load(open('/tmp/seedout.json'))
        passed = res.get('passed') or res.get('pass') or [k for k, v in res.get('tests', {}).items() if v in ('pass', 'passed')]
        miss = [t for t in stable() if t not in set(passed)]
        if miss: bad.append('%d stable tests fail: %s' % (len(miss), miss[:3]))
        rc, o = sh('bash %s/demo.sh' % out, d)
        if rc == 0: bad.append('demo passes with the patch')
        last = o
        rc, o = sh('bash %s/demo.sh' % out, '/repo')
        if rc: bad.append('demo fails without the patch: ' + o[-800:])
    rc, o = sh('%s/bin/an check -repo %s -verif %s %s' % (V, d, '/tmp/seedverif', 'all' if '-a' in sys.argv else s['property']), d, 900)
    viol = sorted(set(re.findall(r'VIOLATION property=(\w+)', o)))
    if bad: shutil.rmtree(out)
    print(s['id'], s['property'], 'OK' if not bad else 'BAD ' + '; '.join(bad), '| caught by', viol or 'NONE rc=%d' % rc)
    if '-v' in sys.argv: print(o[-3000:])
    shutil.rmtree(d, ignore_errors=True)
os.makedirs('/tmp/seedverif', exist_ok=True)
if os.path.exists(V + '/known_findings.json'): shutil.copy(V + '/known_findings.json', '/tmp/seedverif/')
if os.path.exists(V + '/properties.jsonl'): shutil.copy(V + '/properties.jsonl', '/tmp/seedverif/')
main()
