#!/usr/bin/env python3
""" Writes MANIFEST.json from properties.jsonl and checks.py. """
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
ROOT = os.path.dirname(HERE)
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf8')]
m = {'version': 1, 'setup_cmd': 'sh dst/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({
            'property': p, 'quick_cmd': 'python3 dst/run.py %s' % p, 'thorough_cmd': 'python3 dst/run.py %s --tier thorough' % p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': c['technique'], 'level': c['level'],
            'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check yet')})
m['notes'] = 'No hooks in /repo: every seam is outside it (LD_PRELOAD I/O library, replaced synchronisation primitives, trace events, existing stream/path/class arguments).'
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
