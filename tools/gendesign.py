#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/."""
import os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
by = {}
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    p, _, name = d.partition('-')
    by.setdefault(p, []).append(name)
n = sum(map(len, by.values()))
rows = ''.join('| %s | %s |\n' % (p, ', '.join(by[p])) for p in sorted(by))
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
s = re.sub(r'\d+ changes, each with a demonstration', '%d changes, each with a demonstration' % n, s)
s = re.sub(r'(\| check \| changes caught \|\n\|---\|---\|\n)(?:\|.*\n)+', lambda m: m.group(1) + rows, s)
open(f, 'w').write(s)
