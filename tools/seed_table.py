#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
rows=[]
for n in os.listdir(R):
    m=json.load(open(os.path.join(R,n,'meta.json')))
    rows.append((m['property'],n,m['what_it_breaks'].split('. ')[0].strip()[:150]))
print('| property | bug | what it breaks |'); print('|---|---|---|')
for r in sorted(rows): print('| %s | %s | %s |'%r)
