"""Regenerates /verif/MANIFEST.json: run `python3 tools/manifest.py`."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'pbt', 'checks', i.lower() + '.py')):
        print('no check for', i)
        continue
    checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='./run.sh ' + i,
                       technique=TECH[i][0], level='exploration', level_note=TECH[i][1]))
json.dump(dict(version=1, setup_cmd='./run.sh --selftest', checks=checks, not_applicable=[]),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
