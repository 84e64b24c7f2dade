"""writes MANIFEST.json from the table below (run by hand after edits)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import checks     # noqa

NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
TECH = 'symbolic execution of the real Python code (AST-instrumented from /repo on each run) with z3; every path witness replayed natively'
out = {'version': 1, 'setup_cmd': 'sh bin/setup',
       'hooks': {'guard': 'none', 'enable': 'no hooks: the checks instrument the source while loading it; /repo carries only fix: commits',
                 'source_commits': []},
       'checks': [], 'not_applicable': [],
       'notes': 'DESIGN.md describes the engine, the reference grammar and each check.'}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    n = NOTES.get(p, {})
    if p in checks.PROPS:
        out['checks'].append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % p,
                              'evidence_file': 'evidence/%s.json' % p, 'technique': n.get('technique', TECH),
                              'level': 'model_checking', 'level_note': n['note']})
    else:
        out['not_applicable'].append({'property': p, 'reason': n.get('na', 'check not built yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
import jsonschema   # noqa
jsonschema.validate(out, json.load(open('/root/.vp/MANIFEST.schema.json')))
