#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and properties_cfg.json"""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
cfg = json.load(open(H + '/properties_cfg.json'))
checks, na = [], []
for l in open(R + '/properties.jsonl'):
    i = json.loads(l)['id']; c = cfg[i]
    if c.get('not_applicable'): na.append(dict(property=i, reason=c['not_applicable'])); continue
    checks.append(dict(property=i, quick_cmd='python3 checks/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 checks/check.py ' + i, technique=c['technique'], level=c['level'], level_note=c['level_note']))
m = dict(version=1, setup_cmd='sh checks/setup.sh', hooks=dict(guard='none', enable='no hooks: the checks read the sources of /repo and link its public API', source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
