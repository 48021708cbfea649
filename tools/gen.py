#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json from the table below and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
C = {}
NOTES = {}

def H(name, pkg, quick=None, thorough=None, qs=40, ts=400, reach='', bounds='', **kw):
    d = dict(harness=name, pkg=pkg, quick=quick or {}, thorough=thorough if thorough is not None else (quick or {}),
             quick_s=qs, thorough_s=ts, reach=[r for r in reach.split(',') if r], bounds=bounds)
    d.update(kw)
    return d

def check(pid, *hs, note='', assume=()):
    C[pid] = dict(title=[p['title'] for p in props if p['id'] == pid][0], harnesses=list(hs), assumptions=list(assume))
    NOTES[pid] = note

exec(open(V + '/tools/checks_table.py').read())

NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
json.dump(C, open(V + '/checks.json', 'w'), indent=1)
TECH = ('solver-based symbolic execution of the real code: the Go SSA of the repository is executed with symbolic inputs, interleavings and faults, '
        'every assertion is decided by z3 over all values within the stated bounds, counterexamples are replayed natively')
m = dict(version=1, setup_cmd='bash /verif/check.sh setup',
         hooks=dict(guard='none', enable='no hooks are needed: harnesses are added by overlay, nothing in /repo is instrumented', source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in C:
        m['checks'].append(dict(property=i, quick_cmd=f'bash /verif/check.sh {i} quick', thorough_cmd=f'bash /verif/check.sh {i} thorough',
                                technique=TECH, level='model_checking', level_note=NOTES[i]))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
