#!/usr/bin/env python3
"""variants.py FILE... [-k name] [-c CHECKS] [-v]: applies behaviour-preserving edits to a copy of
/repo and reports every check that raises an alarm on them. A file defines
V, a list of (name, edits[(file, old, new)]) and CHECKS, the checks to run."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd):
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
def one(name, edits, checks, v):
    """(text, ran, bad)"""
    d = tempfile.mkdtemp(prefix='variant'); out = d + '-out'
    try:
        os.makedirs(out, exist_ok=True)
        shutil.copy(os.path.join(V, 'known_findings.json'), out)
        os.rmdir(d)
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f); t = open(p).read() if os.path.exists(p) else ''
            if old == '':
                t += new
            elif t.count(old) != 1: return '%s BAD %d matches in %s of %r' % (name, t.count(old), f, old[:50]), 0, 1
            else: t = t.replace(old, new)
            open(p, 'w').write(t)
        rc, o = sh('go vet ./pkg/... ./cmd/... 2>&1 | grep -v "^#" | head -5; go build ./... ', d)
        if rc: return '%s DOES NOT BUILD %s' % (name, o[:500]), 0, 1
        rc, o = sh('%s/bin/an check -repo %s -verif %s %s' % (V, d, out, ' '.join(checks)), '/tmp')
        al = [l.split('property=')[1].split()[0] for l in o.splitlines() if l.startswith('VIOLATION')]
        if al:
            t = '%s ALARM %s' % (name, al)
            if v: t += '\n' + '\n'.join(x for x in o.splitlines() if not x.startswith(('OK ', 'VIOL', 'KNOWN-', '  rule')))[:3000]
            return t, 1, 1
        if rc: return '%s rc %d %s' % (name, rc, o[-400:]), 1, 1
        return name + ' quiet', 1, 0
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
def main():
    a = sys.argv[1:]; k = None; only = None; v = '-v' in a
    if '-k' in a: i = a.index('-k'); k = a[i+1].split(','); del a[i:i+2]
    if '-c' in a: i = a.index('-c'); only = a[i+1].split(','); del a[i:i+2]
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        for spec in [x for x in a if not x.startswith('-')]:
            ns = {}; exec(open(spec).read(), ns)
            for name, edits in ns['V']:
                if k and not any(x in name for x in k): continue
                jobs.append(ex.submit(one, name, edits, only or ns['CHECKS'], v))
        n = bad = 0
        for j in jobs:
            t, r, b = j.result(); n += r; bad += b
            print(t, flush=True)
    print(n, 'variants,', bad, 'problems')
main()
