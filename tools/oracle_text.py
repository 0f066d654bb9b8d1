#!/usr/bin/env python3
"""Extracts oracle/text.json from the Unicode database (15.0) that comes with perl."""
import json, os, subprocess
PERL = r'''
use Unicode::UCD qw(prop_invlist prop_invmap); use JSON::PP; my %o;
sub inv { my @l=prop_invlist($_[0]); my @r; for(my $i=0;$i<@l;$i+=2){ push @r,[$l[$i]+0,(($l[$i+1]//0x110000)-1)+0]; } return \@r; }
$o{vo}=[@{inv("Vo=U")},@{inv("Vo=Tu")}]; $o{old}=inv("Present_In=11.0"); $o{di}=inv("DI=Y");
my ($l,$m,$f,$d)=prop_invmap("Bidi_Mirroring_Glyph"); my %bmg;
for my $i (0..$#$l-1){ my $v=$m->[$i]; next if $v eq ""; for my $c ($l->[$i]..$l->[$i+1]-1){ $bmg{$c}=$v+($f eq 'a'?$c-$l->[$i]:0) if $v } }
$o{mirror}=\%bmg;
for my $c ("Ps","Pe","Pi","Pf"){ $o{$c}=inv("Gc=$c"); }
my %s; for my $sc (Unicode::UCD::prop_values("sc")) { my $n=(Unicode::UCD::prop_value_aliases("sc",$sc))[1]; $s{$n}=inv("sc=$sc"); }
$o{sc}=\%s; $o{rtl}=[@{inv("Bc=R")},@{inv("Bc=AL")}]; $o{ltr}=inv("Bc=L"); $o{wide}=inv("Ea=W"); print encode_json(\%o);
'''
o = json.loads(subprocess.check_output(['perl', '-e', PERL]))
def S(rs): return {c for a, b in rs for c in range(a, b + 1)}
def R(s):
    out = []
    for c in sorted(s):
        if out and out[-1][1] == c - 1: out[-1][1] = c
        else: out.append([c, c])
    return out
old = S(o['old'])
mir = {int(k): v for k, v in o['mirror'].items()}
ps, pe, pi, pf = (S(o[k]) for k in ('Ps', 'Pe', 'Pi', 'Pf'))
pairs = {}
for a, b in mir.items():                       # mirrored punctuation
    if a in ps | pi and b in pe | pf: pairs[a] = b
for a in ps | pi:                              # an opening mark followed by its closing one
    if a not in pairs and a + 1 in pe | pf: pairs[a] = a + 1
pairs.update({0x3c: 0x3e, 0x298d: 0x298e, 0x298f: 0x2990})
core = [(0, 0xff), (0x2000, 0x209f), (0x27e6, 0x27ef), (0x2983, 0x2998), (0x29fc, 0x29fd), (0x2e02, 0x2e29), (0x3008, 0x301b), (0xfe59, 0xfe5e), (0xff00, 0xff65)]
required = [a for a in sorted(pairs) if any(x <= a <= y for x, y in core)]
rtl, ltr, wide = S(o['rtl']), S(o['ltr']), S(o['wide'])
scripts = {}
for n, rs in o['sc'].items():
    c = S(rs)
    scripts[n] = {'ranges': R(c), 'rtl': len(c & rtl) > len(c & ltr), 'wide': 2 * len(c & wide) > len(c)}
out = {'upright': R(S(o['vo']) & old), 'assigned': R(old), 'ignorable': R(S(o['di']) | {0x2028, 0x2029}),
       'pairs': sorted(pairs.items()), 'required': required, 'scripts': scripts}
for n in ('Common', 'Inherited', 'Unknown'): scripts[n]['ranges'] = []
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tpcheck', 'oracle', 'text.json')
json.dump(out, open(p, 'w'), separators=(',', ':'), sort_keys=True)
print({k: len(v) for k, v in out.items()}, os.path.getsize(p))
