#!/usr/bin/env python3
"""trybugs.py [-a] [ID...]: runs the check of each planted bug's property (with
-a every check) against a scratch copy of /repo with the bug applied."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; allc = '-a' in a; a = [x for x in a if x != '-a']
ids = a or sorted(os.listdir(V + '/seeded'))
man = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
from concurrent.futures import ThreadPoolExecutor
def one(i):
    d = V + '/seeded/' + i; prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='bug-'); r = t + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        subprocess.check_call(['git', '-C', r, 'apply', d + '/patch.diff'])
        out = []
        for p in (man if allc else [prop]):
            x = subprocess.run([V + '/check', p], cwd=V, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=t), capture_output=True, text=True)
            vs = [l for l in x.stdout.split('\n') if l.startswith('VIOLATION')]
            if x.returncode == 1 and vs: out.append('%s:caught(%d)' % (p, len(vs)))
            elif x.returncode != 0: out.append('%s:rc%d %s' % (p, x.returncode, x.stderr[-300:]))
            elif not allc: out.append('%s:MISSED' % p)
        print(i, ' '.join(out), flush=True)
    finally: shutil.rmtree(t, ignore_errors=True)
with ThreadPoolExecutor(1 if allc else 2) as ex: list(ex.map(one, ids))
