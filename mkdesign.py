#!/usr/bin/env python3
"""Writes DESIGN.md from design/head.md, design/mid.md, the planted bugs with
the results of the last sweep (design/RESULTS, lines "id property rc seconds")
and design/tail.md; and FAMILIES.md from the evidence of a quick run, where all
of it is there (mkdesign.py families)."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
def read(n): return open(os.path.join(D, n)).read()

def bugs():
    res = {}
    if os.path.exists(f'{D}/design/RESULTS'):
        for l in read('design/RESULTS').splitlines():
            i, p, rc, sec = l.split()
            res[i] = (rc, sec)
    rows = []
    for i in sorted(os.listdir(f'{D}/seeded')):
        f = f'{D}/seeded/{i}/meta.json'
        if not os.path.exists(f): continue
        m = json.load(open(f))
        rc, sec = res.get(i, ('?', '?'))
        rows.append((m['property'], i, m['needs'], {'1': 'caught', '0': 'missed'}.get(rc, rc), sec))
    rows.sort()
    n = sum(r[3] == 'caught' for r in rows)
    out = f'{len(rows)} changes are kept in `seeded/`, {n} of them caught by the quick check of\ntheir property when it was last run against them (seed 1; the time, where it was taken, is that of the\nwhole run, some of them on a loaded machine).\n\n'
    out += '| property | change | needs | quick check | s |\n|---|---|---|---|---|\n'
    for r in rows: out += '| %s | %s | %s | %s | %s |\n' % tuple(x.replace('|', '\\|') for x in r)
    return out

def families():
    out = '# Families of the checks\n\nAs reported by a quick run with seed 1: rule, cases, non-trivial ones (distinct).\n'
    for i in range(1, 21):
        e = json.load(open(f'{D}/evidence/C{i:02d}.json'))
        if e['tier'] != 'quick': raise SystemExit(f'C{i:02d}: not a quick run')
        c = e['coverage']
        rules = dict(r.split(': ', 1) for r in c['rule'].split(' | '))
        out += f'\n## C{i:02d}\n\n'
        for name, rule in rules.items():
            f = c['families'].get(name, {'evaluations': 0, 'nontrivial': 0})
            out += f"* **{name}** ({f['evaluations']} / {f['nontrivial']}): {rule}\n"
        for a in e.get('assumptions') or []:
            out += f'* assumed: {a}\n'
    open(f'{D}/FAMILIES.md', 'w').write(out)

open(f'{D}/DESIGN.md', 'w').write(read('design/head.md') + read('design/mid.md') + bugs() + read('design/tail.md'))
if sys.argv[1:] == ['families']: families()
