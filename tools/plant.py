#!/usr/bin/env python3
"""plant.py SPEC.py... : turns planted-bug descriptions into seeded/<id>/.
A description is a python file defining id, prop, needs, breaks, edits =
[(file, old, new)], demo (Go source of package main).  Everything is confirmed
in a scratch copy: the change builds, the stable tests pass, the demonstration
passes without it and fails with it."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo, after build.sh
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$(dirname "$0")"/demo.go.txt "$T/demo.go"
export GOPATH="$PWD/lib/go:$GOPATH" GOTMPDIR="$T"
go build -o "$T/demo" "$T/demo.go" || exit 3
timeout 120 "$T/demo"
'''
L = 'lib/go/src/thrift/'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def one(fn):
    d = {'L': L}; exec(open(fn).read(), d)
    dst = os.path.join(V, 'seeded', d['id'])
    assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
    orig = {}
    for f, a, b in d['edits']:
        p = '/repo/' + (f if '/' in f else L + f); s = open(p).read(); orig.setdefault(p, s)
        assert s.count(a) == 1, (d['id'], f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    try:
        patch = sh('git -C /repo diff').stdout
        base = sh('git -C /repo log --format=%H --reverse | head -1').stdout.strip()
        # at least one changed line must be a line of the original repository
        old = '\n'.join(sh('git -C /repo show %s:%s' % (base, p[6:])).stdout for p in orig)
        rem = [l[1:] for l in patch.split('\n') if l.startswith('-') and not l.startswith('---')]
        ins = [l for l in rem if l.strip() and l not in old.split('\n')]
        if ins: print('  NOTE lines not of the original:', ins)
        if not rem: print('  NOTE only adds lines')
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(patch)
        open(dst + '/demo.sh', 'w').write(d.get('demosh', DEMO)); os.chmod(dst + '/demo.sh', 0o755)
        open(dst + '/demo.go.txt', 'w').write(d['demo'])
        for f, t in d.get('FILES', {}).items():
            os.makedirs(os.path.dirname(dst + '/' + f), exist_ok=True); open(dst + '/' + f, 'w').write(t)
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: return fail(dst, 'build: ' + b.stderr)
        t = sh('bash /opt/vp/test.sh /tmp/plant.json')
        x = json.load(open('/tmp/plant.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
        ps = x.get('passed') or x.get('pass')
        miss = set(stable) - set(ps)
        if miss: return fail(dst, 'tests fail: %s' % sorted(miss)[:5])
        r1 = sh('bash %s/demo.sh' % dst, cwd='/repo')
        if r1.returncode in (0, 3): return fail(dst, 'demo with the bug: rc %d %s' % (r1.returncode, r1.stdout + r1.stderr))
    finally:
        for p, s in orig.items(): open(p, 'w').write(s)
    r0 = sh('bash %s/demo.sh' % dst, cwd='/repo')
    if r0.returncode: return fail(dst, 'demo without the bug: rc %d %s' % (r0.returncode, r0.stdout + r0.stderr))
    print('planted', d['id'], ':', (r1.stdout + r1.stderr).strip()[-160:])
def fail(dst, why):
    shutil.rmtree(dst, ignore_errors=True); print('REJECTED', dst, why[-1500:])
for f in sys.argv[1:]: one(f)
