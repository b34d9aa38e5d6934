#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, checks.py and NA below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
try: from checks import NA
except ImportError: NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
            technique=c.get('technique', 'bounded exhaustive model checking of the real code: every case of the stated bounded spaces is executed on the implementation and on an explicit reference model, compared step by step'),
            level=c.get('level', 'model_checking'), level_note=c.get('note', c['rule'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
