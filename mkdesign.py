#!/usr/bin/env python3
# Writes DESIGN.md from design/*.md, the simulator sources, levels.json and seeded/*/meta.json.
import json, re, os, glob
here = os.path.dirname(os.path.abspath(__file__))
rd = lambda f: open(os.path.join(here, f)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l]
lv = json.loads(rd('levels.json'))
out = [rd('design/1-approach.md')]
info = json.loads(rd('design/oracles.json'))
from mkmanifest import PURE as na
for p in props:
    i = p['id']
    if i in na: continue
    s = rd(f'sim/{i.lower()}.cpp')
    strs = re.findall(r'"((?:[^"\\]|\\.)*)"', s[s.rfind('const Property property'):])
    o, b, c = info[i]
    out.append(f"""### {i} — {p['title']}

{strs[1]}

* *Method*: {lv[i]['technique']}.
* *Oracle*: {o}.
* *Bounds*: {b}; {lv[i]['note']}.
* *Real*: {strs[2]}. *Simulated*: {strs[3]}. *Distinct states*: {strs[4]}.
* *Cost* (quick, 8 cores, without build): about {c}.
* *Why tests cannot*: {p['why_tests_cant']}

""")
out.append('### Not applicable\n\n')
for i, t in na.items():
    out.append(f"* {i} ({next(p['title'] for p in props if p['id'] == i)}): {t}.\n")
out.append('\n' + rd('design/3-findings.md'))
out.append(rd('design/6-planted.md') if os.path.exists(os.path.join(here, 'design/6-planted.md')) else '')
out.append('\n| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n')
for d in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', '')} |\n")
open(os.path.join(here, 'DESIGN.md'), 'w').write(''.join(out))
