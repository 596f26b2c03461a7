#!/usr/bin/env python3
"""Authoring-time generator of harness/data/ucd.txt (NOT run by the checks).

Source: Perl 5.38's own copy of the Unicode 15.0 database (ucd_dump.pl), not
the tables of the repository.  Characters whose Age is newer than the version
the repository documents are put back to what they were before:
  uniseg    -> Unicode 14.0 (GCB, Extended_Pictographic, Emoji_Presentation, EAW)
  runewidth -> Unicode 13.0 (EAW W/F, A, Na; Extended_Pictographic)
Only runewidth's `combining` class (name-derived, pinned by the repository's
own SHA-256 test) is copied from runewidth_table.go.
"""
import re, collections, subprocess, os, sys
here = os.path.dirname(os.path.abspath(__file__))
P = collections.defaultdict(dict)
for l in subprocess.check_output(['perl', os.path.join(here, 'ucd_dump.pl')], text=True).splitlines():
    p, a, b, v = l.split()
    for c in range(int(a, 16), int(b, 16) + 1):
        P[p][c] = v
N = 0x110000
out = []
def emit(name, f):
    start, cur = 0, f(0)
    for c in range(1, N + 1):
        v = f(c) if c < N else None
        if c == N or v != cur:
            if cur:
                out.append('%s %X %X %s' % (name, start, c - 1, cur))
            start, cur = c, v
new14 = lambda c: P['Age'][c] == '15.0'
new13 = lambda c: P['Age'][c] in ('14.0', '15.0')
def gcb(c):
    if P['ExtPict'][c] == 'Y':
        return 'ExtPict'
    v = P['GCB'][c]
    if new14(c):
        return ''
    return {'Other': '', 'ExtPict_XX': 'ExtPict', 'Regional_Indicator': 'RI'}.get(v, v)
# unassigned code points of the CJK blocks and planes are Wide by default (UAX #11)
cjk = lambda c: 0x3400 <= c <= 0x4DBF or 0x4E00 <= c <= 0x9FFF or 0xF900 <= c <= 0xFAFF or 0x20000 <= c <= 0x2FFFD or 0x30000 <= c <= 0x3FFFD
emit('gcb', gcb)
emit('wide14', lambda c: 'Y' if P['EA'][c] in 'WF' and (cjk(c) or not new14(c)) else '')
emit('epres14', lambda c: 'Y' if P['EPres'][c] == 'Y' and not new14(c) else '')
emit('wide13', lambda c: 'Y' if P['EA'][c] in 'WF' and (cjk(c) or not new13(c)) else '')
emit('ambig13', lambda c: 'Y' if P['EA'][c] == 'A' else '')
emit('narrow13', lambda c: 'Y' if P['EA'][c] == 'Na' else '')
emit('emoji13', lambda c: 'Y' if P['ExtPict'][c] == 'Y' and c > 0xFF else '')
src = open('/repo/runewidth/runewidth_table.go').read()
m = re.search(r'var combining = table\{(.*?)\n\}', src, re.S)
comb = set()
for a, b in re.findall(r'\{0x([0-9A-F]+), 0x([0-9A-F]+)\}', m[1]):
    comb.update(range(int(a, 16), int(b, 16) + 1))
emit('combining13', lambda c: 'Y' if c in comb else '')
open(os.path.join(here, '../harness/data/ucd.txt'), 'w').write('\n'.join(out) + '\n')
