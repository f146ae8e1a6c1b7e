#!/usr/bin/env python3
"""Puts DESIGN.md and FAMILIES.md together: hand-written parts, property titles, families from the last evidence, planted bugs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/meta', V + '/bin']
from design_props import P
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
out = [open(V + '/meta/design_head.md').read(), '\n## Properties and how each is decided\n']
fam = ['# Families explored by each check (quick tier)\n', 'Generated by `meta/design.py` from the evidence of the last quick runs. Families whose names differ in an index only are put together.\n']
for pid in sorted(props):
    h, how, why = P[pid]
    ev = V + f'/evidence/{pid}.json'; cost = ''
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e['coverage']
        if e['tier'] == 'quick':
            cost = f"  Quick tier: {c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} executions judged."
            fam.append(f'\n## {pid} {props[pid]["title"]}\n\n| family | cases | bound |\n|---|---|---|')
            rows = {}
            for x in c['families']:
                k = (re.sub(r'\d+', '#', x['name']) if len(c['families']) > 40 else x['name'], x['variant']); r = rows.setdefault(k, [0, 0, x['bound']]); r[0] += x['cases']; r[1] += 1
            for k, r in rows.items():
                fam.append(f"| {k[0]} ({k[1]}{', %d families' % r[1] if r[1] > 1 else ''}) | {r[0]} | {r[2].replace('|', '/')[:260]} |")
        else: sys.stderr.write(f'{pid}: evidence is of the {e["tier"]} tier\n')
    out.append(f"### {pid} {props[pid]['title']}\n\nHarness `{h}`.  {how}\n\n*What tests cannot reach:* {why}{cost}\n")
out.append(open(V + '/meta/design_tail.md').read())
out.append('\n## Planted bugs and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + f'/seeded/{s}/meta.json')); out.append(f"| {s} | {m['property']} | {m['needs']} | {m['property']} |")
if os.path.exists(V + '/meta/design_campaign.md'): out.append('\n' + open(V + '/meta/design_campaign.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n'); open(V + '/FAMILIES.md', 'w').write('\n'.join(fam) + '\n')
