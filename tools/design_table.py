#!/usr/bin/env python3
"""Prints the table of planted changes (from seeded/*/meta.json) for DESIGN.md."""
import json,glob,os
rows=[]
for m in glob.glob(os.path.join(os.path.dirname(__file__),'../seeded/*/meta.json')):
    d=json.load(open(m)); rows.append((d['property'],os.path.basename(os.path.dirname(m)),d['needs']))
for p,i,n in sorted(rows): print(f"| {p} | {i} | {n} |")
