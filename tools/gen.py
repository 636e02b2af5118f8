#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from tools/spec.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from spec import PROPS, NOT_APPLICABLE, FIX_COMMITS

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
checks = [{'id': p['id'], 'harnesses': [
    {k: v for k, v in (('fn', h[0]), ('bound', h[1]), ('reach', h[2] if len(h) > 2 else ['end']),
                       ('tier', h[3] if len(h) > 3 else '')) if v}
    for h in p['harn']],
    'assumptions': p.get('assume', []) + ['Go semantics as implemented by the interpreter of go/ssa in engine/ (validated on sampled paths against the real build in the same run)',
                                          'SMT solver verdicts (z3) are correct'],
    'outside': p['outside']} for p in PROPS if p['id'] not in na]
json.dump(checks, open(os.path.join(root, 'checks.json'), 'w'), indent=1)
man = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick bash /verif/check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash /verif/check.sh ' + p['id'],
        'technique': 'symbolic execution of the real Go code (go/ssa of /repo, regenerated every run) with z3 deciding every branch and assertion over all inputs within the bounds; counterexamples and sampled paths replayed on the real build',
        'level': 'model_checking',
        'level_note': p['level_note'],
    } for p in PROPS if p['id'] not in na],
    'not_applicable': NOT_APPLICABLE,
    'notes': 'One engine (engine/), harnesses in harness/h, properties and bounds in tools/spec.py (python3 tools/gen.py rewrites properties.jsonl, checks.json, MANIFEST.json). No hooks in /repo: harnesses enter through a build overlay.',
}
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
