#!/usr/bin/env python3
"""Authoring-time generator of spec/data/unicode.json: the Unicode 14.0 reference of spec/Unicode.tla.

Source: the Unicode Character Database which comes with perl (15.0), an implementation which shares
nothing with include/unicode-db.  It is brought back to 14.0 by `Age`: a code point assigned later
is unassigned (Cn, script Zzzz, no age, no binary property other than the ones which are defined for
unassigned code points too), and blocks allocated later do not exist.  Ten code points had a
property changed (not added) by 15.0; they are listed below.  No check runs this."""
import collections
import json
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data', 'unicode.json')
N = 0x110000

RUNS = r'''
no warnings; while(<STDIN>){ chomp; my $n=$_; my $re=eval { qr/\p{$n}/ }; if(!$re){ print "$n UNKNOWN\n"; next }
my @r; my $lo=-1; for my $c (0..0x110000){ my $b = $c<0x110000 && (chr($c) =~ $re);
if($b && $lo<0){$lo=$c} if(!$b && $lo>=0){ push @r, sprintf("%x-%x",$lo,$c-1); $lo=-1 } }
print join(' ',$n,@r),"\n"; }'''
NAMES = r'''
use Unicode::UCD qw(prop_values prop_value_aliases prop_aliases);
for my $p ('gc','sc','blk','age'){ for my $v (prop_values($p)){ my @a=prop_value_aliases($p,$v); print join(' ',$p,@a?@a:$v),"\n" } }
for my $n (@ARGV){ print join(' ','bin',$n,prop_aliases($n)),"\n" }'''

# the binary properties of UTS 18 the library documents
BIN = '''ahex alpha bidi_c bidi_m ci cased dash dep di dia emoji emoji_component emoji_modifier
emoji_modifier_base emoji_presentation ext extended_pictographic gr_base gr_ext hex idc ids idsb idst ideo
join_c loe lower math nchar pat_syn pat_ws pcm qmark radical ri sd sterm term uideo upper vs wspace xidc xids
'''.split()
FOR_UNASSIGNED = {'di', 'pat_syn', 'extended_pictographic', 'nchar'}
# 15.0 made these Alphabetic / Lowercase (hence Cased)
LATER = {'alpha': [0xc04, 0xf82, 0xf83, 0x11080, 0x11081],
         'lower': [0x10fc, 0xa7f2, 0xa7f3, 0xa7f4, 0xab69],
         'cased': [0x10fc, 0xa7f2, 0xa7f3, 0xa7f4, 0xab69]}
# blocks which 15.0 allocated or extended
NEW_BLOCKS = {'arabic_ext_c', 'devanagari_ext_a', 'kawi', 'kaktovik_numerals', 'cyrillic_ext_d', 'nag_mundari', 'cjk_ext_h'}
BLOCK_END = {'egyptian_hieroglyph_format_controls': 0x1343f}


def perl(src, args=(), inp=''):
    with tempfile.NamedTemporaryFile('w', suffix='.pl') as f:
        f.write(src)
        f.flush()
        return subprocess.run(['perl', f.name, *args], input=inp, capture_output=True, text=True, check=True).stdout


def main():
    alias = {}
    groups = collections.defaultdict(dict)
    for line in perl(NAMES, BIN).splitlines():
        kind, *names = line.split()
        names = [n.lower() for n in names]
        groups[kind][names[0]] = sorted(set(names))
    want = ['%s=%s' % (k, n) for k in ('gc', 'sc', 'blk') for n in groups[k]] + ['scx=' + n for n in groups['sc']] \
        + ['In=' + n for n in groups['age'] if n[0].isdigit()] + list(groups['bin'])
    parts = [want[i::48] for i in range(48)]
    runs = {}
    with ThreadPoolExecutor(6) as ex:
        for out in ex.map(lambda p: perl(RUNS, inp='\n'.join(p) + '\n'), parts):
            for line in out.splitlines():
                n, *r = line.split()
                runs[n] = [] if r == ['UNKNOWN'] else [tuple(int(x, 16) for x in q.split('-')) for q in r]

    def fill(names, default, key):
        a = [default] * N
        for n in names:
            for lo, hi in runs[key + n]:
                for c in range(lo, hi + 1):
                    a[c] = n
        return a

    old = bytearray(N)
    for lo, hi in runs['In=14.0']:
        for c in range(lo, hi + 1):
            old[c] = 1
    gc = fill([n for n in groups['gc'] if len(n) == 2 and n != 'lc'], None, 'gc=')
    sc = fill(groups['sc'], 'zzzz', 'sc=')
    blk = fill(groups['blk'], 'nb', 'blk=')
    age = fill(sorted((n for n in groups['age'] if n[0].isdigit() and float(n) <= 14), key=float, reverse=True), 'na', 'In=')
    scx = [()] * N
    for n in sorted(groups['sc']):
        for lo, hi in runs['scx=' + n]:
            for c in range(lo, hi + 1):
                scx[c] += (n,)
    bins = [()] * N
    for n in sorted(groups['bin']):
        for lo, hi in runs[n]:
            for c in range(lo, hi + 1):
                if (old[c] or n in FOR_UNASSIGNED) and c not in LATER.get(n, ()):
                    bins[c] += (n,)
    profiles, ids, segs = [], {}, []
    for c in range(N):
        if not old[c]:
            # noncharacters have an age, so they are never here
            assert age[c] == 'na'
            gc[c], sc[c], scx[c] = 'cn', 'zzzz', ('zzzz',)
        if blk[c] in NEW_BLOCKS or c > BLOCK_END.get(blk[c], N):
            blk[c] = 'nb'
        key = (gc[c], sc[c], scx[c], blk[c], age[c], bins[c])
        if key not in ids:
            ids[key] = len(profiles) + 1
            profiles.append({'gc': key[0], 'sc': key[1], 'scx': list(key[2]), 'blk': key[3], 'age': key[4], 'bin': list(key[5])})
        if segs and segs[-1][2] == ids[key]:
            segs[-1][1] = c
        else:
            segs.append([c, c, ids[key]])
    ages = sorted((n for n in groups['age'] if n[0].isdigit() and float(n) <= 14), key=lambda v: [int(x) for x in v.split('.')])
    out = {'version': '14.0', 'ages': ages, 'profiles': profiles, 'segs': segs,
           'aliases': {k: {n: groups[k][n] for n in sorted(groups[k]) if k != 'age' and n not in NEW_BLOCKS} for k in ('gc', 'sc', 'blk', 'bin')}}
    os.makedirs(os.path.dirname(OUT), exist_ok=True)
    with open(OUT, 'w') as f:
        f.write('{"version": "14.0",\n "ages": %s,\n "aliases": %s,\n "profiles": [\n' % (json.dumps(ages), json.dumps(out['aliases'])))
        f.write(',\n'.join(json.dumps(p) for p in profiles))
        f.write('],\n "segs": [\n')
        f.write(',\n'.join(json.dumps(s) for s in segs))
        f.write(']}\n')
    print(len(profiles), 'profiles', len(segs), 'segments', os.path.getsize(OUT), 'bytes')


if __name__ == '__main__':
    main()
