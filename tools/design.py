"""Fills the generated parts of DESIGN.md (property sections, not-applicable list, planted-bug table)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, os.path.join(V, 'tools'))
import importlib
from design_text import TEXT
man = json.load(open(V + '/MANIFEST.json'))
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
out = []
for c in sorted(man['checks'], key=lambda c: c['property']):
    p = c['property']; d = props[p]
    m = importlib.import_module('rules.' + p.lower())
    fl = ', '.join('%s >= %d' % kv for kv in m.FLOORS.items())
    out.append('### %s - %s\n\n*Technique:* %s. *Level:* other.\n\n*Rule:* %s.\n\n%s\n\n*Assumptions:* %s. *Floors:* %s. *Scope note:* %s\n' %
               (p, d['title'], c['technique'], m.RULE, TEXT.get(p, ''), '; '.join(m.ASSUMPTIONS) or 'the common ones', fl or 'none', c['level_note']))
na = '\n'.join('* **%s** %s: %s' % (n['property'], props[n['property']]['title'] if n['property'] in props else '', n['reason']) for n in man['not_applicable'])
rows = ['| planted bug | property | needs | reported by |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    md = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    rows.append('| %s | %s | %s | %s |' % (s, md['property'], md['needs'], md.get('caught_by', md['property'])))
t = open(V + '/tools/DESIGN.in.md').read()
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@NA@@', na).replace('@@SEEDS@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
