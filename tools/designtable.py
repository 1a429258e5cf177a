#!/usr/bin/env python3
"""designtable.py - rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (development aid)."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
	m = json.load(open(f))
	rows.append('| `%s` | %s | %s | %s quick |' % (f.split('/')[1], m['needs'], m['what_it_breaks'], m['property']))
s = open('DESIGN.md').read()
head = '| change | needs | breaks | caught by |\n|---|---|---|---|\n'
a = s.index(head) + len(head)
b = a
while s[b : b + 1] == '|':
	b = s.index('\n', b) + 1
open('DESIGN.md', 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
