#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/lib')
import props
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'level': 'model_checking',
                       'technique': 'TLA+ specification checked with TLC; behaviours generated from it are replayed into the real code and the recorded traces are checked against it (trace validation with TLC)',
                       'level_note': props.LEVEL_NOTE.get(i, 'The specification is model-checked on bounded instances; the implementation is bound to it by trace validation of generated behaviours, so the implementation side is exploration within the stated bounds, not a proof.')})
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'Check under construction.')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ (TLC). See DESIGN.md. No hooks in /repo: the drivers use its public interface and SQLite\'s own extension points.'}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
