#!/usr/bin/env python3
"""Extracts oracle/segments.json: the classes of UAX #29 (Unicode 15, from perl) of the characters of Unicode 11."""
import json, os, subprocess
PERL = r'''
use Unicode::UCD qw(prop_invmap prop_invlist); use JSON::PP; my %o;
for my $p ("gcb","wb","sb","sc") { my ($l,$m,$f,$d)=prop_invmap($p); $o{$p}=[map {[$l->[$_]+0,$m->[$_]]} 0..$#$l]; }
my @l=prop_invlist("Present_In=11.0"); $o{old}=[map {$_+0} @l]; print encode_json(\%o);
'''
o = json.loads(subprocess.check_output(['perl', '-e', PERL]))
def M(k):
    out = [None] * 0x110000
    v = o[k]
    for i, (s, n) in enumerate(v):
        for c in range(s, min(v[i + 1][0] if i + 1 < len(v) else 0x110000, 0x110000)): out[c] = n
    return out
gcb, wb, sb, sc = M('gcb'), M('wb'), M('sb'), M('sc')
# perl tailors the two first ones
seg = {0x20, 0x1680, 0x205f, 0x3000} | set(range(0x2000, 0x2007)) | set(range(0x2008, 0x200b))
for c in range(0x110000):
    if gcb[c] == 'ExtPict_XX': gcb[c] = 'Other'
    if wb[c] == 'ExtPict_XX': wb[c] = 'Other'
    if wb[c] == 'ExtPict_LE': wb[c] = 'ALetter'
    if wb[c] == 'Perl_Tailored_HSpace': wb[c] = 'WSegSpace' if c in seg else 'Other'
    assert (wb[c] == 'WSegSpace') == (c in seg), hex(c)
rows, old, l = [], False, o['old']
l = l + [0x110000] if len(l) % 2 else l
names = []
def idx(n):
    if n not in names: names.append(n)
    return names.index(n)
for a, b in zip(l[::2], l[1::2]):
    for c in range(a, b):
        t = [idx(gcb[c]), idx(wb[c]), idx(sb[c]), idx(sc[c])]
        if rows and rows[-1][1] == c - 1 and rows[-1][2:] == t: rows[-1][1] = c
        else: rows.append([c, c] + t)
# where the algorithm of Pango, of which the code is a port, departs from Unicode: kind/class of Unicode/class of Pango
DEPARTURES = {
    'gb/Extend/SpacingMark': '1B35 302E-302F 1133E 11357 114B0 114BD 115AF 1171E',
    'gb/Other/SpacingMark': '102B-102C 1038 1062-1064 1067-106D 1083 1087-108C 108F 109A-109C 1A61 1A63-1A64 AA7B AA7D 11720-11721',
    'gb/Prepend/ControlCRLF': '110CD',
    'gb/Prepend/Other': '0D4E 111C2-111C3 11A3A 11A86-11A89 11D46',
    'gb/SpacingMark/Other': '0E33 0EB3',
    'sb/Lower/OLetter': '00AA 00BA 0295 02B0-02B8 02C0-02C1 02E0-02E4 037A 10FC 1D2C-1D6A 1D78 1D9B-1DBF 2071 207F 2090-209C 2C7C-2C7D A69C-A69D A770 A7F8-A7F9 AB5C-AB5F',
    'sb/Lower/Other': '2170-217F 24D0-24E9',
    'sb/Numeric/Other': 'FF10-FF19',
    'sb/OLetter/Lower': '10D0-10FA 10FD-10FF',
    'sb/OLetter/Other': '16EE-16F0 2180-2182 2185-2188 3007 3021-3029 3038-303A A6E6-A6EF 10140-10174 10341 1034A 103D1-103D5 12400-1246E',
    'sb/OLetter/Upper': '1C90-1CBA 1CBD-1CBF',
    'sb/Upper/Other': '2160-216F 24B6-24CF 1F130-1F149 1F150-1F169 1F170-1F189',
    'wb/ALetter/Other': '02C2-02C5 02D2-02D7 02DE-02DF 02E5-02EB 02ED 02EF-02FF 055A-055C 055E 058A A708-A716 A720-A721 A789-A78A AB5B 1F130-1F149 1F150-1F169 1F170-1F189',
    'wb/Extend/Other': '1F3FB-1F3FF',
    'wb/ExtendNumLet/Other': '202F',
    'wb/MidLetter/Other': '055F',
    'wb/Numeric/Other': 'FF10-FF19',
    'wb/Other/ALetter': '9FC4-9FEF FA2E-FA2F FA6B-FA6D 17000-187F1 18800-18AF2 1B170-1B2FB 2A700-2B734 2B740-2B81D 2B820-2CEA1 2CEB0-2EBE0',
    'wb/Other/ExtendFormat': '200B',
}
exc = [[k.split('/')[0], k.split('/')[2]] + [int(x, 16) for x in (r + '-' + r if '-' not in r else r).split('-')] for k, v in DEPARTURES.items() for r in v.split()]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tpcheck', 'oracle', 'segments.json')
json.dump({'names': names, 'rows': rows, 'departures': exc}, open(p, 'w'), separators=(',', ':'))
print(len(rows), len(names), os.path.getsize(p))
