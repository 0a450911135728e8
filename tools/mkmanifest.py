#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
have = set()
for f in os.listdir(V + '/tools'):
    if f.startswith('checks_'): have |= set(re.findall(r'^def check_(P\d+)\(', open(V + '/tools/' + f).read(), re.M))
NOTE = {
 'codec': 'TLC enumerates every write history of a bounded grammar and checks round trip, skip and prefix safety of the specified encodings; those behaviours, boundary and seeded random histories are run on the real code and every recorded call is validated by TLC against the protocol state machines. Trusted: TLC, the specification of the wire format, the test driver.',
}
LEVELNOTE = {}
exec(open(V + '/tools/levelnotes.py').read()) if os.path.exists(V + '/tools/levelnotes.py') else None
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
            'technique': 'TLA+ specification checked with TLC; behaviours replayed on, and recorded traces of, the real code validated by TLC',
            'level': 'model_checking', 'level_note': LEVELNOTE.get(i, NOTE['codec'])})
    else: na.append({'property': i, 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks are needed: everything is observed through the public API. Checks build the driver (harness/src/vh) and /repo/lib/go/src/thrift into a scratch directory under /tmp on every run.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
