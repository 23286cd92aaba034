"""Writes DESIGN.md from tools/design.md, the harness and the planted bugs."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(here, 'tools/design.md')).read()
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
src = ''.join(open(os.path.join(here, 'harness', f)).read() for f in sorted(os.listdir(os.path.join(here, 'harness'))) if f.endswith('.go'))
sizes = {}
for m in re.finditer(r'id:\s+"(C\d\d)",\s+quick:\s+(\d+),\s+thorough:\s+(\d+)', src):
    sizes[m[1]] = (m[2], m[3])
cost = json.load(open(os.path.join(here, 'tools/costs.json')))
what = {
 'C06': ('rendered conditions', 'three-valued truth tables'), 'C11': ('texts of repeated renderings, builds, processes', 'byte equality'),
 'C12': ('texts under forced collections', 'parsed text = recorded history'), 'C13': ('what every value says, before and after', 'equality, and recorded history'),
 'C14': ('memory accesses, texts', 'race detector, equality with alone'), 'C15': ('errors of Build and Render', 'taint of erroneous parts'),
 'C16': ('panics, fatal errors, stack, memory, time', 'watchdogs'), 'C21': ('texts of alternative calls', 'byte equality'),
 'C02': ('rendered texts', 'accepted by an independent parser'), 'C03': ('names in the text', 'independent lexer'), 'C04': ('string tokens', 'independent decoder'), 'C05': ('number tokens', 'independent reader'),
}
rows = []
for p in props:
    w, o = what.get(p['id'], ('rendered texts of call histories', 'parsed text = recorded history'))
    q, t = sizes.get(p['id'], ('?', '?'))
    rows.append('| %s | %s | %s | %s / %s | %s s |' % (p['id'], w, o, q, t, cost.get(p['id'], '?')))
text = text.replace('@TABLE@', '\n'.join(rows))
seeds = ['| bug | breaks | needs | caught by |', '|-|-|-|-|']
results = json.load(open(os.path.join(here, 'tools/caught.json')))
d = os.path.join(here, 'seeded')
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, 'meta.json')))
    clean = lambda x: x.replace('|', '\\|').replace('\n', ' ')
    seeds.append('| %s | %s | %s | %s |' % (s, clean(m['what_it_breaks']), clean(m['needs']), results.get(s, m['property'] + ' quick')))
text = text.replace('@SEEDS@', '\n'.join(seeds))
for k in ('MISSED', 'MUT'):
    f = os.path.join(here, 'tools', k.lower() + '.md')
    text = text.replace('@%s@' % k, open(f).read() if os.path.exists(f) else '')
open(os.path.join(here, 'DESIGN.md'), 'w').write(text)
