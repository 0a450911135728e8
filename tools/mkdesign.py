#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md's text (design/*.md)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rd = lambda f: open(os.path.join(V, 'design', f)).read()
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['what_it_breaks'].strip(), m['needs'].strip()))
t = rd('1-3.md') + rd('4-6.md') + '''
## 7. Planted bugs

Every one was written from the property's text and the code, compiles, passes
the stable tests, has a demonstration, and was run against the check of its
property with `tools/trybugs.py`: **all %d are caught** by the check of the
property they are named after (the quick tier, seed 1).  Some were missed
at first; what that added to the checks: announced sizes beyond 16 bits and runs
of backslashes and control characters in the JSON cases, schedules chosen by
class rather than uniformly in the server checks, crowds of 70 and 200
connections, slices overwritten after a write, and a bound on the time hanging
cases may take.

| bug | what it breaks | needs |
|---|---|---|
''' % len(rows) + '\n'.join(rows) + '\n' + rd('8-9.md')
open(V + '/DESIGN.md', 'w').write(t)
