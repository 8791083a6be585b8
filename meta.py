#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (and worlds.py)."""
import json, os
from worlds import PROPS
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'deterministic simulation with fault injection (seeded schedule and fault search, replayable)'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=''):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': w} for n, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
NOTES = {}
NA = []
exec(open(os.path.join(V, 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
na = {n['property'] for n in NA}
checks = []
for p in P:
    i = p['id']
    if i in na: continue
    if i not in PROPS: raise SystemExit('no worlds for ' + i)
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': TECH, 'level': PROPS[i]['level'], 'level_note': NOTES[i]})
m = {'version': 1, 'setup_cmd': 'python3 build.py',
     'hooks': {'guard': 'THOT_SIM', 'enable': 'No hook was needed: build.py compiles the unmodified sources with -DTHOT_SIM (used nowhere in /repo), instruments every memory access and redirects system and library calls at link time.', 'source_commits': []},
     'checks': checks, 'not_applicable': NA,
     'notes': 'All checks share one simulator (sim/, built by build.py). Violations are confirmed twice from the replay file in fresh processes before they are reported; replay by hand: build/sim replay --file FILE --verbose 1 (P23: python3 cluster/search.py FILE). Known findings and repaired defects: known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
