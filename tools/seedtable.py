#!/usr/bin/env python3
# prints the table of planted changes for DESIGN.md from seeded/*/meta.json and tools/caught.txt (lines "ID CHECK note")
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(root, 'tools', 'caught.txt')):
    p = l.split(None, 2)
    if len(p) >= 2: caught[p[0]] = (p[1], p[2].strip() if len(p) > 2 else '')
print('| change | property | what it breaks | caught by |\n|---|---|---|---|')
for i in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    c = caught.get(i, ('?', ''))
    print('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), c[0] + (' (' + c[1] + ')' if c[1] else '')))
