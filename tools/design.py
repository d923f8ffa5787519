#!/usr/bin/env python3
"""Appends section 4 (planted bugs) and the tail to DESIGN.md."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, 'DESIGN.md')
s = open(p).read().split('## 4. Planted bugs')[0].rstrip()
out = [s, '', '## 4. Planted bugs and what catches them', '',
       'Written from the property text and the code, kept under `seeded/` once confirmed (builds, stable tests pass, demo differs). '
       'Each was run against the quick check of its property (`tools/seedtest.sh`).', '',
       'Missed at first, after which the check was strengthened: j04b (the head must end with the first byte of the next value), '
       'j08a (nothing is written after an input error), j08b (documents cut short), g01a, g04a, g05a (more allocations, deeper chains of forks, big allocations in merges), g11a, g12b, g13b (objects, lists and dicts named by content, cycles, unrelated pairs), g14a, g15b, g16a (objects whose schemas differ in one type only, collections of mixed numbers, graphs of fallbacks that disagree).', '',
       '| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    missed = open(R + '/tools/missed.txt').read().split() if os.path.exists(R + '/tools/missed.txt') else []
    c = 'not caught' if i in missed else m['property']
    f = lambda t: ' '.join(str(t).replace('|', '/').split())
    out.append(f'| {i} | {c} | {f(m["what_it_breaks"])} | {f(m["needs"])} |')
out += ['', open(R + '/tools/design_tail.md').read().rstrip(), '']
open(p, 'w').write('\n'.join(out))
