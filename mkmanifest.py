"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys
sys.path.insert(0, 'analyzer')
import checks
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = checks.TECH
man = {'version': 1, 'setup_cmd': 'python3 analyzer/run.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.GROUPS:
        t, note = TECH[i]
        man['checks'].append({'property': i, 'quick_cmd': 'python3 analyzer/run.py %s quick' % i, 'thorough_cmd': 'python3 analyzer/run.py %s thorough' % i,
                              'technique': t, 'level': 'other', 'level_note': note})
    else:
        man['not_applicable'].append({'property': i, 'reason': checks.NA.get(i, 'check not built yet')})
json.dump(man, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
