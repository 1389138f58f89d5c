#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
config = json.load(open(V + '/checks.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, missing = [], []
for p in props:
    i = p['id']
    if i in config and (os.path.exists(V + '/src/%s.cpp' % i) or i == 'C22'):
        c = config[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c.get('technique', 'property-based testing with shrinking against a reference model'),
                       'level': 'exploration',
                       'level_note': c.get('note', 'Generated cases against an explicit oracle; nothing is claimed beyond the cases that were explored.')})
    else:
        missing.append({'property': i, 'reason': 'its check is not written yet'})
HOOK = 'ed0a0981f71b3af1a1246ac6b2c6136fd10b0cd3'
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'hooks': {'guard': 'SNN_VERBOSE', 'enable': 'C28 compiles the sources of /repo with -DSNN_VERBOSE=minimal and -DSNN_VERBOSE=complete (the level of the log); every other check compiles them without it', 'source_commits': [HOOK]},
     'checks': checks, 'not_applicable': missing,
     'notes': 'Checks compile /repo\'s sources (release flags of its CMakeLists.txt, or ASan+UBSan for C22) into /verif/build. known_findings.txt lists the defects recorded and repaired.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'not claimed')
