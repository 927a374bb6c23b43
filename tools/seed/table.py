#!/usr/bin/env python3
"""Prints the table of the planted changes (DESIGN.md, section 7) from seeded/*/meta.json and the log(s) of catch.py."""
import json,os,re,sys
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../../seeded')
res={}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'(\S+)\s+(C\d+)\s+(\d+)s exit (\d+) ?(.*)',l)
        if m: res[m.group(1)]=(m.group(4),'no-failing-input' not in m.group(5),m.group(3))
print('| change | property | needs | breaks | caught |\n|---|---|---|---|---|')
for d in sorted(os.listdir(R)):
    m=json.load(open(os.path.join(R,d,'meta.json')))
    r=res.get(d)
    c='?' if r is None else 'no' if r[0]!='1' else 'input' if r[1] else 'obligation only'
    print('| %s | %s | %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'),c))
