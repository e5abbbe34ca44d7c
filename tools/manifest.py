#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/lib')
import checks
NOTES = json.load(open(ROOT + '/tools/notes.json'))
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                 'technique': 'TLA+ specification: TLC model checking, behaviours generated by TLC replayed on the code, recorded traces validated by TLC',
                 'level': 'model_checking', 'level_note': NOTES['level'].get(p, NOTES['default'])} for p in props if p in checks.CHECKS],
     'not_applicable': [{'property': p, 'reason': NOTES['na'].get(p, 'no check yet')} for p in props if p not in checks.CHECKS],
     'notes': 'TLA+ checked with TLC; see DESIGN.md. No hooks in /repo are needed: the public interface is observed.'}
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
