#!/usr/bin/env python3
"""Composes DESIGN.md from tools/design_head.md, the property texts, checks/meta.json and tools/design_notes.py."""
import json,os,sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,ROOT+'/tools')
import mkprops,design_notes
meta=json.load(open(ROOT+'/checks/meta.json'))
out=[open(ROOT+'/tools/design_head.md').read().rstrip(),'\n\n## The properties, one by one\n']
for p in mkprops.P:
    i=p['id']; n=design_notes.N[i]
    out.append(f"\n### {i} {p['title']}\n")
    if i not in meta: out.append("Not claimed: "+n['why']+"\n"); continue
    m=meta[i]
    out.append(f"* Decided by: {m['technique']}.\n* Oracle: {n.get('oracle',m['rule'])}\n* Bounds: {m['bounds']}.\n* Why beyond tests: {p['why_tests_cant']}\n* Cost: {n['cost']}\n")
    if n.get('false'): out.append("* False alarms corrected on the way (check or property was wrong): "+n['false']+"\n")
    if n.get('limits'): out.append("* Limits: "+n['limits']+"\n")
rows=['| bug | property | what it breaks | needs |','|---|---|---|---|']
for d in sorted(os.listdir(ROOT+'/seeded')):
    j=json.load(open(f'{ROOT}/seeded/{d}/meta.json')); rows.append(f"| {d} | {j['property']} | {j['what_it_breaks']} | {j['needs']} |")
out.append('\n'+open(ROOT+'/tools/design_tail.md').read().replace('@SEEDED@','\n'.join(rows)))
open(ROOT+'/DESIGN.md','w').write(''.join(out))
