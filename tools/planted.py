#!/usr/bin/env python3
# planted.py: rewrites the "Planted bugs" section of DESIGN.md from seeded/*/meta.json
import json,os
d='/verif/seeded'
rows=[]
for i in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{i}/meta.json'))
    f=lambda s:' '.join(s.replace('|','\\|').split())
    rows.append(f"| {i} | {m['property']} | {f(m['needs'])} |")
p='/verif/DESIGN.md'; s=open(p).read()
i=s.find('## Planted bugs')
if i<0: i=s.index('PLANTED')
s=s[:i]+"""## Planted bugs

Each was written from a property's text and the code, compiles, passes the stable
tests, and has a demonstration. `tools/runseeded.sh` applies each in turn and
runs the checks; all of them are caught by the quick check of the property in
the second column (a missed one led to a stronger workload first).

| change | caught by | needs |
|---|---|---|
"""+'\n'.join(rows)+'\n'
open(p,'w').write(s)
