#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py.  A property is
claimed when checks/<id>_*.py exists."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS   # noqa: E402

out, checks, na = [], [], []
for p in PROPS:
    files = p['files']
    rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
           'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
           'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
    if p.get('state'):
        rec['anchors']['state'] = [{'name': a, 'meaning': b} for a, b in p['state']]
    assert len(p['title']) <= 80, p['id']
    out.append(rec)
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    elif glob.glob(os.path.join(ROOT, 'checks', p['id'].lower() + '_*.py')):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/run.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 checks/run.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'proof'), 'level_note': p['note']})
    else:
        raise SystemExit('%s is neither claimed nor declined' % p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for r in out:
        f.write(json.dumps(r) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 engine/front.py', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print('%d properties, %d checks, %d not applicable' % (len(out), len(checks), len(na)))

# ------------------------------------------------------------------ DESIGN.md
seeds = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(open(os.path.join(HERE, 'design_head.md')).read())
    for p in PROPS:
        if p.get('na'):
            continue
        f.write('\n### %s %s\n' % (p['id'], p['title']))
        f.write('*Quantifier:* %s.  \n*Method:* %s.  \n' % (p['qtext'], p['technique']))
        src = open(glob.glob(os.path.join(ROOT, 'checks', p['id'].lower() + '_*.py'))[0]).read()
        doc = src.split('"""')[1].strip() if src.startswith('"""') else ''
        f.write('*Obligations:* ' + ' '.join(doc.split()) + '  \n')
        f.write('*Reach beyond tests:* %s  \n*Bounds and remarks:* %s\n' % (p['why'], p['note']))
    f.write('\n## 3. Not applicable\n\n')
    for p in PROPS:
        if p.get('na'):
            f.write('* **%s %s**: %s\n' % (p['id'], p['title'], p['na']))
    tail = open(os.path.join(HERE, 'design_tail.md')).read()
    f.write('\n' + tail.replace('SEEDTABLE', '| change | property | effect | needs |\n|---|---|---|---|\n' + '\n'.join(seeds)))
