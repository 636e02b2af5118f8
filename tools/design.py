#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, spec.py, known_findings.json and the planted bugs."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from spec import PROPS, NOT_APPLICABLE
try:
    res = json.load(open(here + '/seeded_results.json'))
except FileNotFoundError:
    res = {}
try:
    cost = json.load(open(here + '/costs.json'))
except FileNotFoundError:
    cost = {}
for p in PROPS:   # costs of the last quick runs of this machine
    f = f'{root}/evidence/{p["id"]}.json'
    if os.path.exists(f):
        e = json.load(open(f)); c = e['coverage']
        if e['tier'] == 'quick' and e['violations'] == 0 and not os.environ.get('NOCOST'):
            cost[p['id']] = {'s': round(e['wall_s']), 'paths': c['states'], 'queries': c['solver_queries'], 'solver_s': round(c['solver_s'])}
json.dump(cost, open(here + '/costs.json', 'w'), indent=0, sort_keys=True)
o = open(here + '/design_head.md').read()
o += '\n## 3. Properties: how each is decided\n\n'
o += 'All are decided by the technique of section 1; the line "bounds" gives what is enumerated (kinds, structures, counts of members) and what is symbolic.\n'
for p in sorted(PROPS, key=lambda p: p['id']):
    o += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    o += f"* Quantified over: {p['quant']}\n* Why tests cannot: {p['why']}\n"
    o += '* Decided by: ' + p.get('how', 'symbolic execution of ' + ', '.join(f"`{f}`" for f in p['files']) + ' (and everything they call)') + '.\n'
    if p.get('oracle'):
        o += f"* Oracle: {p['oracle']}\n"
    o += '* Harnesses and bounds:\n'
    for h in p['harn']:
        o += f"  * `{h[0]}`: {h[1]}\n"
    for a in p.get('assume', []):
        o += f'* Assumes: {a}\n'
    o += f"* Outside: {p['outside']}\n"
    c = cost.get(p['id'])
    if c:
        o += f"* Cost (quick): {c['s']} s, {c['paths']} paths, {c['queries']} solver queries.\n"
o += '\n## 4. Defects found\n\n'
kf = json.load(open(root + '/known_findings.json'))
o += 'Each was first reported by a check, with inputs that fail on the real code.\n\nRepaired by `fix:` commits in /repo (the checks pass since and report them if they return):\n\n'
for f in kf:
    if f['status'] == 'fixed':
        o += f"* {f['property']} `{f['commit']}` {f['what']}\n"
o += '\nRecorded (known_findings.json), not repaired:\n\n'
for f in kf:
    if f['status'] == 'known':
        o += f"* {f['property']} `{f['assertion']}`: {f['what']}\n"
o += open(here + '/design_known.md').read()
o += '\n## 5. Planted bugs\n\nEach lies in `seeded/`, builds, passes the existing tests and has a demonstration; which check reports it:\n\n| bug | needs | caught by |\n|---|---|---|\n'
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    o += f"| {d} | {m['needs'].replace('|', '/')} | {res.get(d, '?')} |\n"
o += open(here + '/design_tail.md').read()
open(root + '/DESIGN.md', 'w').write(o)
