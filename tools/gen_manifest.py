#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'lib'))
import props
NOTES = {}
exec(open(os.path.join(R, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(R, 'tools', 'notes.py')) else None
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    d = json.loads(l); i = d['id']
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd='bin/check %s' % i, thorough_cmd='VERIF_TIER=thorough bin/check %s thorough' % i,
            technique='TLA+ specification model-checked with TLC; TLC conformance-checks traces of the real code and replays specification behaviours',
            level='model_checking', level_note=NOTES.get(i, 'Specification explored exhaustively in small instances; code bound to it by TLC judging every recorded transition of exhaustive small-scope and random executions of the real headers.')))
    else: na.append(dict(property=i, reason=NOTES.get('na:' + i, 'Check not built yet.')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
