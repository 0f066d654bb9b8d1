#!/usr/bin/env python3
"""Extracts oracle/unicode.json from the Unicode 11 files shipped in /repo/fribidi/unidata."""
import json, os, sys
U = sys.argv[1] if len(sys.argv) > 1 else '/repo/fribidi/unidata/'
def rows(f):
    for l in open(os.path.join(U, f), encoding='utf-8'):
        l = l.split('#')[0].strip()
        if l: yield [x.strip() for x in l.split(';')]
ud = {int(r[0], 16): r for r in rows('UnicodeData.txt')}
def canon(c):
    d = ud[c][5]
    return canon(int(d, 16)) if d and '<' not in d and ' ' not in d else c
mirror = {int(a, 16): int(b, 16) for a, b in rows('BidiMirroring.txt')}
br = {}
for a, b, t in rows('BidiBrackets.txt'):
    a, b = int(a, 16), int(b, 16)
    br[a] = [canon(a if t == 'o' else b), 1 if t == 'o' else 0]
joining = {int(r[0], 16): r[2] for r in rows('ArabicShaping.txt')}
for c in (0x856, 0x857, 0x858): del joining[c]  # became R in Unicode 12, whose data textlayout has
# the mandatory ligatures: LAM and an ALEF, in presentation forms
form = {}
for c, r in ud.items():
    d = r[5].split()
    if d and d[0] in ('<isolated>', '<final>', '<initial>', '<medial>'):
        form[(d[0], tuple(int(x, 16) for x in d[1:]))] = c
liga = []
for (tag, seq), c in form.items():
    if len(seq) == 2 and seq[0] == 0x644 and seq[1] in (0x622, 0x623, 0x625, 0x627) and tag in ('<isolated>', '<final>'):
        lam = form[('<initial>' if tag == '<isolated>' else '<medial>', (0x644,))]
        liga.append([lam, form[('<final>', (seq[1],))], c])
out = {"mirror": sorted(mirror.items()), "brackets": [[k] + v for k, v in sorted(br.items())],
       "joining": sorted(joining.items()), "ligatures": sorted(liga)}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tpcheck', 'oracle', 'unicode.json'), 'w'), separators=(',', ':'))
print({k: len(v) for k, v in out.items()}, out["ligatures"])
