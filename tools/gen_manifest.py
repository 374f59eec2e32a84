#!/usr/bin/env python3
"""Rewrite MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = 'is pure computation: one thread, no clock, no I/O, no entropy and no peer takes part, so there is no schedule or fault for a simulator to choose; it needs another family of technique'
REASONS = {'N09': 'sqlite is compiled out in this sandbox (vendor/sqlite3.c is not in the repository), so the code cannot run here'}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] in props.PROPS:
        P = props.PROPS[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': 'python3 tools/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'deterministic simulation with fault injection', 'level': 'exploration', 'level_note': P.get('level_note', props.LEVEL_NOTE_C % P['oracle'])})
    else:
        na.append({'property': p['id'], 'reason': REASONS.get(p['id'], 'This property ' + NA if p['id'][0] == 'N' else 'not yet covered by a check')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: nondeterminism is intercepted at link level (libc symbols, TSan callbacks, emulated TLS) and, on the Go side, by rewriting imports in a copy made at check time. known-findings.txt lists defects found. Replay: python3 tools/check.py --replay FILE'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
