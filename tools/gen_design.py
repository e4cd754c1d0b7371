#!/usr/bin/env python3
"""Writes DESIGN.md: head + one section per property (oracle text here, bounds from the harness sources) + tail."""
import json, os, re, glob, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,V)
from checks import CHECKS
exec(open(V+'/tools/design_notes.py').read())
out=open(V+'/tools/design_head.md').read()
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    out+=f"### {i} - {p['title']}\n\n"
    if i not in CHECKS: out+="Not claimed.\n\n"; continue
    src=open(V+'/harness/'+CHECKS[i]['src'][0]).read()
    out+=NOTES[i].strip()+"\n\n"
    for m in re.finditer(r'\{"([\w-]+)",\s*\w+,\s*\d+,\s*"((?:[^"\\]|\\.)*)"',src): out+=f"* `{m.group(1)}`: {m.group(2)}\n"
    out+="\n"
out+=open(V+'/tools/design_tail.md').read()
rows=[]
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append((os.path.basename(os.path.dirname(d)),m['property'],m['needs'],m.get('caught_by','-')))
out+="\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n"+''.join(f"| {a} | {b} | {c} | {e} |\n" for a,b,c,e in rows)
open(V+'/DESIGN.md','w').write(out)
