#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (missed.txt lists those no check catches)"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/DESIGN.md').read()
head = '| planted bug | needs | caught by |\n|---|---|---|\n'
s = s[:s.index(head) + len(head)]
missed = set(open(H + '/tools/missed.txt').read().split()) if os.path.exists(H + '/tools/missed.txt') else set()
for p in sorted(glob.glob(H + '/seeded/*/meta.json')):
  i = p.split('/')[-2]
  m = json.load(open(p))
  s += f'| {i} | {m["needs"].replace("|", "/")} | {"none" if i in missed else m["property"]} |\n'
open(H + '/DESIGN.md', 'w').write(s)
