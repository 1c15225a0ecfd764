#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in this directory (props.py).
Run by hand after an edit of the tables; no check runs it."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': [], 'notes': props.NOTES}
for p in props.PROPS:
    pid = p['id']
    if pid in props.CLAIMS:
        c = props.CLAIMS[pid]
        m['checks'].append({
            'property': pid,
            'quick_cmd': 'python3 checks/run.py ' + pid,
            'thorough_cmd': 'python3 checks/run.py ' + pid + ' --tier thorough',
            'evidence_file': 'evidence/' + pid + '.json',
            'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': pid, 'reason': props.NOT_APPLICABLE.get(pid, 'No static check for it is registered yet.')})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed;', len(m['not_applicable']), 'not applicable')
