"""Writes DESIGN.md from the sections below, the properties, and the suites of the checks."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pbt import runner

HEAD = open(ROOT + '/tools/design_head.md').read()
TAIL = open(ROOT + '/tools/design_tail.md').read()
PER = {}
cur = None
for line in open(ROOT + '/tools/design_per.md'):
    if line.startswith('## '):
        cur = line[3:].strip()
        PER[cur] = []
    elif cur:
        PER[cur].append(line.rstrip('\n'))
out = [HEAD]
for line in open(ROOT + '/properties.jsonl'):
    p = json.loads(line)
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append('\n'.join(PER[p['id']]).strip() + '\n')
    mod = runner.load(p['id'])
    out.append('*Suites (cases quick / thorough):* ' + '; '.join('`%s` %d / %d' % (s.name, s.quick, s.thorough) for s in mod.SUITES) + '.')
    out.append('*Non-trivial:* %s.' % mod.RULE)
    if getattr(mod, 'ASSUMPTIONS', None):
        out.append('*Assumed:* %s.' % '; '.join(mod.ASSUMPTIONS))
    out.append('')
rows = ['| Planted bug | Property | Needs | Caught by |', '|---|---|---|---|']
caught = json.load(open(ROOT + '/tools/caught.json'))
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(ROOT + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, '')))
mutation = open(ROOT + '/tools/mutation.md').read() if os.path.exists(ROOT + '/tools/mutation.md') else ''
out.append(TAIL.replace('PLANTED', '\n'.join(rows) + '\n').replace('MUTATION', mutation))
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
