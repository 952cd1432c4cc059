#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, contracts/props.json, properties.jsonl, KNOWN_FINDINGS and tools/caught.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(f'{R}/contracts/props.json'))
T = [json.loads(l) for l in open(f'{R}/properties.jsonl')]
caught = json.load(open(f'{R}/tools/caught.json'))
out = [open(f'{R}/tools/design_head.md').read().rstrip(), '', '## Property by property', '',
       'Every property has level `proof`. "Search" is what the compiled code is run on besides; it is bounded and never what a claim rests on.', '']
for t in T:
    p = P[t['id']]
    out += [f"### {t['id']} {t['title']}", '', f"* Decided by: {p['note']}"]
    out += [f"* Functions under contract: {', '.join('`' + f + '`' for f in p['fns'])}" + (f"; theorems: {', '.join('`' + f + '`' for f in p['theorems'])}" if p['theorems'] else '')]
    out += [f"* Search (bounded): {p['bounded']}.", '']
out += ['## Planted bugs and what catches them', '', '| seed | property | what it breaks | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(f'{R}/seeded')):
    m = json.load(open(f'{R}/seeded/{s}/meta.json'))
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {caught.get(s, 'not yet run')} |")
out += ['', '## Defects found in keride', '', 'All of them were shown on the compiled code first. `fixed` entries are separate `fix:` commits in /repo; `known` is recorded only.', '', '```', open(f'{R}/KNOWN_FINDINGS').read().rstrip(), '```', '']
open(f'{R}/DESIGN.md', 'w').write('\n'.join(out))
