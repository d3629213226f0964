#!/usr/bin/env python3
"""Regenerates MANIFEST.json: claims every property that has a check module."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
NA = {
 'N01': 'A pure function of parameters and input: no schedule, clock, I/O, crash or history for a simulator to decide; only input search, a different technique, would address it. C15, C16 and C19 still execute the code.',
 'N03': 'Parsing and formatting are pure functions of the file contents; the I/O-dependent part (split, interrupted and failing reads, failing writes) is claimed as C11 and C14, and what the decoder makes of the files as C17.',
 'N04': 'Arithmetic of one update, a pure function of state and batch; no schedule or fault affects it. State carried between updates across kills and restarts is claimed as C01, independence of padding, order and history as C20.',
}
NOTES = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'sim', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': './run.sh %s --tier quick' % i,
            'thorough_cmd': './run.sh %s --tier thorough' % i,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, fault sequences and histories against a reference model',
            'level': 'exploration',
            'level_note': NOTES.get(i, 'Seeded search over plans: the property held on every explored run; runs, seeds, faults and distinct executions are in the evidence file. Not exhaustive.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
