#!/usr/bin/env python3
"""Writes corpus/<ID>.jsonl: the defects found on the original tree, replayed first by every run."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
def S(x):
    o = ''
    for ch in x:
        c = ord(ch)
        if ch in '"\\': o += '\\' + ch
        elif 32 <= c < 127: o += ch
        elif c < 0x80: o += '\\x%02x' % c
        elif c < 0x10000: o += '\\u%04x' % c
        else: o += '\\U%08x' % c
    return '"' + o + '"'
def grid(rows, w, sep, compact=False, vertical=False, upd=None, big=(), aligns=None, ncols=None):
    n = ncols if ncols is not None else (len(rows[0]) if rows else 1)
    return dict(Cols=[dict(Name=S('c%d' % i), Align=(aligns or [0] * n)[i]) for i in range(n)],
                Rows=[[S(c) for c in r] for r in rows], Big=[dict(Row=a, Col=b, N=c) for a, b, c in big],
                Upd=upd or [0] * n, W=w, Sep=S(sep), Compact=compact, Vertical=vertical)
both = lambda f: [f(False), f(True)]
C = {}
C['C01'] = [dict(Str=S('\u009b1mx'), Repeat=1, Width=4, Kind=1), dict(Str=S('\x1b[1m\u0903'), Repeat=1, Width=4, Kind=2),
            dict(Str=S('x'), Repeat=66000, Width=500, Kind=1)]
C['C02'] = [dict(Segs=[dict(Esc=True, S=S('\u009bm'), N=1)]),
            dict(Segs=[dict(Esc=False, S=S('a'), N=1), dict(Esc=True, S=S('\x1b[31m'), N=1), dict(Esc=False, S=S('\u0903'), N=1)]),
            dict(Segs=[dict(Esc=False, S=S('x'), N=65536)])]
hop = lambda op, s='', n=0, ea=False, st=False: dict(Op=op, S=S(s), N=n, EA=ea, St=st)
C['C03'] = [dict(Ops=[hop('set', ea=False, st=True), hop('measure', '☆①'), hop('set', ea=True, st=True), hop('pool', n=2)])]
C['C05'] = [dict(Cols=[], Rows=None, Upd=None, Margin=1, Bad=None),
            dict(Cols=[dict(Name=S('a'), Align=1), dict(Name=S('b'), Align=2)], Rows=[], Upd=[40000, 40000], Margin=1, Bad=[])]
C['C07'] = [dict(Cols=[dict(Name=S('a'), Title=S('Größe'), Short=S('G'), W=5, Align=0), dict(Name=S('b'), Title=S('\x1b[1mName\x1b[0m'), Short=S(''), W=6, Align=1)], Sep=S(' '))]
C['C08'] = [grid([], 80, ' ', c, v, upd=[3]) for c in (False, True) for v in (False, True)]
wide2 = [['a', 'bb'], ['ccc', 'd'], ['e', 'ff']]
C['C09'] = [grid(wide2, 12, '', c, v) for c in (False, True) for v in (False, True)]
C['C09'] += [grid([['x']] * 5, w, '', c, v) for w in (-1, -80) for c in (False, True) for v in (False, True)]
C['C09'] += [grid([['x']] * 6, 65535, ' ', True, v, big=[(0, 0, 30000), (1, 0, 30000), (2, 0, 30000)]) for v in (False, True)]
C['C09'] += [grid([['x', 'y']] * 6, 65535, ' ', c, v, upd=[40000, 40000]) for c in (False, True) for v in (False, True)]
C['C11'] = [dict(G=grid([['a', 'b']] * 4, 8, '  ', c, v), More=3) for c in (False, True) for v in (False, True)]
C['C11'] += [dict(G=grid([['a']] * 4, w, '  ', c, v), More=3) for w in (65535, 65534, 70000) for c in (False, True) for v in (False, True)]
C['C12'] = [grid(r, w, sep, c, v, ncols=n) for (r, n) in (([], 0), ([], 1), ([[]], 0), ([['']] * 3, 1), ([['x']] * 3, 1)) for w in (-1, 0, 80, 65535) for sep in ('', ' ') for c in (False, True) for v in (False, True)]
op = lambda o, cond=1, to=0, ea=False, st=True, s='': dict(Op=o, Cond=cond, To=to, EA=ea, St=st, Str=S(s))
C['C22'] = [dict(Ops=[op('create'), op('copy', 1, 2), op('set', 1, ea=True), op('create'), op('query', 2, s='☆①')])]
os.makedirs(os.path.join(here, '../corpus'), exist_ok=True)
for id, cs in C.items():
    with open(os.path.join(here, '../corpus', id + '.jsonl'), 'w') as f:
        for c in cs:
            f.write(json.dumps(c) + '\n')
