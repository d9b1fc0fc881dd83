#!/usr/bin/env python3
"""regenerates MANIFEST.json from fw/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from fw import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    c = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                       technique=c.get('technique', props.TECHNIQUE), level=c['level'], level_note=c.get('note', '') + ' ' + props.NOTE))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'no check yet')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3 fw/build.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo are needed: contracts are sidecar files bound to functions by qualified name; the code is re-extracted on every run.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
