#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the only place they are edited)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NA, SETUP, NOTES
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier={'over': p['over'], 'text': p['q']}, why_tests_cant=p['why'],
                 anchors={'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]})
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': SETUP, 'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA], 'notes': NOTES}
for p in PROPS:
    man['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'], 'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
with open(V + '/MANIFEST.json', 'w') as f: json.dump(man, f, indent=1); f.write('\n')

# ---- DESIGN.md ----
import re, glob
sec = {}
for part in re.split(r'^## ', open(V + '/doc/checks.md').read(), flags=re.M)[1:]:
    k, _, b = part.partition('\n'); sec[k.strip()] = b.strip()
out = []
for p in PROPS:
    assert p['id'] in sec, p['id']
    out.append('### %s %s\n\n%s\n\n*Quantifies over* %s. *Technique:* %s. *Assumes / not covered:* %s\n\n%s\n' % (p['id'], p['title'], p['statement'], p['q'], p['tech'], p['note'].replace('Every path of the analysed functions is covered; nothing is executed and nothing is sampled. ', ''), sec[p['id']]))
na = ['* **%s %s** — %s' % (p['id'], p['title'], p['reason']) for p in NA]
kf = json.load(open(V + '/known-findings.json'))
st = {}
if os.path.exists(V + '/doc/seeds.json'): st = json.load(open(V + '/doc/seeds.json'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], st.get(i, m['property'])))
t = open(V + '/doc/design.in').read()
for k, v in (('PROPS', '\n'.join(out)), ('NA', '\n'.join(na)), ('SEEDS', '\n'.join(rows)), ('FIXED', '\n'.join('* ' + x for x in kf['fixed'])),
             ('KNOWN', '\n'.join('* %s `%s`: %s' % (x['property'], x['key'], x['what']) for x in kf['findings']) or 'none'), ('OBS', open(V + '/doc/obs.md').read().strip())):
    t = t.replace('@@%s@@' % k, v)
open(V + '/DESIGN.md', 'w').write(t)
