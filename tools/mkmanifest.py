#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN
checks = []
for p, d in PLAN.items():
    tech = ('Verus contracts on the functions of /repo/src (units: %s), regenerated from the source on every run' % ', '.join(d['units']) if d['units'] else 'bounded stand-in for contracts: generated inputs against an independent oracle')
    if d['units'] and d['bounded']: tech += '; functions outside the verifier\'s reach: bounded stand-in against an independent oracle'
    note = d['note'] + (' Bounded (never counted as proved): ' + d['bounded'] if d['bounded'] else '')
    c = dict(property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + p,
             evidence_file='evidence/%s.json' % p, technique=tech, level=d['level'], level_note=note.strip())
    if d['theorems']: c['theorems'] = d['theorems']
    checks.append(c)
m = dict(version=1, setup_cmd='bash tools/setup.sh',
  hooks=dict(guard='ledger_verif', enable='RUSTFLAGS="--cfg ledger_verif" (set by tools/check.py when it builds harness/)', source_commits=['622202b']),
  checks=checks,
  not_applicable=[dict(property='C16', reason='ledger-rs-lib does not implement the check (finalize accepts a transaction that does not balance; the upstream code has no place for it yet), so there is nothing for a contract to hold on; adding the check would change behaviour beyond a small repair')],
  notes='known-findings.txt lists the defects found and repaired; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
