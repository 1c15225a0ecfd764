#!/usr/bin/env python3
"""Writes DESIGN.md from design_intro.md, design_tail.md and the tables (props.py, the rules, seeded/).
Run by hand after an edit; no check runs it."""
import glob, importlib, json, os, sys, textwrap
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
import props
import design_notes
bugs = {}
for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(m))
    bugs.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs']))


def fill(t):
    return textwrap.fill(' '.join(t.split()), 110)


out = [open(HERE + '/design_intro.md').read().strip(), '', '## Properties', '']
for p in props.PROPS:
    pid = p['id']
    if pid not in props.CLAIMS:
        continue
    c = props.CLAIMS[pid]
    mod = importlib.import_module('rules.' + pid.lower())
    out += [f'### {pid} – {p["title"]}', '', fill(f'*Decided by:* {c["technique"]}. Level: {c["level"]}. '
            f'Files: `rules/{pid.lower()}.py`{design_notes.FILES.get(pid, "")}.'), '',
            fill('*Specified:* ' + mod.EXPLANATION), '', fill('*Reach:* ' + c['note']), '',
            fill('*Why tests cannot:* ' + p['why_tests_cant']), '']
    ev = ROOT + '/evidence/' + pid + '.json'
    a = design_notes.ASSUME.get(pid)
    if a is None and os.path.exists(ev):
        a = json.load(open(ev)).get('assumptions')
    if a:
        out += [fill('*Assumed:* ' + '; '.join(a) + '.'), '']
    if pid in design_notes.NOTES:
        out += [fill('*Notes:* ' + design_notes.NOTES[pid]), '']
    if pid in bugs:
        out += ['*Planted changes (all valid by their demo and caught by this check unless noted):*', '']
        out += ['- `' + b + '` – ' + n for b, n in bugs[pid]] + ['']
out += ['## Not applicable', '']
for p in props.PROPS:
    if p['id'] not in props.CLAIMS:
        out += [fill(f'**{p["id"]} {p["title"]}.** ' + props.NOT_APPLICABLE[p['id']]), '']
out.append(open(HERE + '/design_tail.md').read().strip())
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
