#!/usr/bin/env python3
"""Writes harness/unicode14.hpp: the Unicode 14.0 properties the library's tables stand for, taken from perl's own copy of the
Unicode character database (15.0).  Characters assigned after 14.0 get the value 14.0 gives unassigned code points, and the three
characters whose line break class 15.0 changed are put back.  Needed only to regenerate the committed file."""
import os
import subprocess

PERL = r'''
use strict; no warnings; use Unicode::UCD qw(prop_invmap);
for my $p ('GCB','lb','Extended_Pictographic','gc','ea','White_Space','Age'){
  my ($l,$m,$f,$d)=prop_invmap($p);
  for my $i (0..$#$l){ my $e=$i<$#$l?$l->[$i+1]-1:0x10ffff; print "$p $l->[$i] $e $m->[$i]\n"; } }
'''
N = 0x110000
inv = {}
for line in subprocess.run(['perl', '-e', PERL], capture_output=True, text=True, check=True).stdout.splitlines():
    p, a, b, v = line.split(' ', 3)
    arr = inv.setdefault(p, [None] * N)
    for i in range(int(a), int(b) + 1):
        arr[i] = v
GCB = 'Other CR LF Control Extend ZWJ Regional_Indicator Prepend SpacingMark L V T LV LVT ExtPict'.split()
LB = 'XX AL BA BB B2 BK CB CL CM CP CR EB EM EX GL H2 H3 HY ID HL IN IS JL JT JV LF NL NS NU OP PO PR QU RI SP SY WJ ZW ZWJ'.split()


def later(c):
    return inv['Age'][c] not in ('Unassigned',) and float(inv['Age'][c]) > 14.0


def ws(c): return int(inv['White_Space'][c] == 'Y')
def cjk(c): return 0x20000 <= c <= 0x2FFFD or 0x30000 <= c <= 0x3FFFD   # wide and ideographic whether assigned or not
def dw(c): return int((cjk(c) or not later(c)) and inv['ea'][c] in ('W', 'F'))
def zw(c): return int(not later(c) and inv['gc'][c] in ('Mn', 'Me'))


def gcb(c):
    if inv['Extended_Pictographic'][c] == 'Y':
        return 14
    g = inv['GCB'][c]
    return 0 if later(c) or g in ('Other', 'ExtPict_XX') else GCB.index(g)


def lb(c):   # classes after rule LB1, 0 for what 14.0 leaves unassigned (LB1: as AL)
    l = inv['lb'][c]
    if c in (0x1DCD, 0x1DFC):
        l = 'CM'
    elif c == 0x2057:
        l = 'AL'
    elif later(c) and not cjk(c):
        if not 0x1F000 <= c <= 0x1FFFD:   # the ideographic default of 14.0
            return 0
        l = 'ID'
    if l == 'XX' and inv['gc'][c] == 'Cn':
        return 0
    if l in ('AI', 'SG', 'XX'):
        l = 'AL'
    elif l == 'CJ':
        l = 'NS'
    elif l == 'SA':
        l = 'CM' if inv['gc'][c] in ('Mn', 'Mc') else 'AL'
    return LB.index(l)


out = ['// Generated by tools/gen_unicode.py from the Unicode character database; see there.', '#pragma once', '#include <cstdint>', '#include <cstddef>',
       'namespace unicode14', '{', '// value in the low byte, first code point of the run above it']
for name, f in (('ws', ws), ('dw', dw), ('zw', zw), ('gcb', gcb), ('lb', lb)):
    runs, prev = [], None
    for c in range(N):
        v = f(c)
        if v != prev:
            runs.append(c << 8 | v)
            prev = v
    runs.append(N << 8)
    out.append('inline constexpr std::uint32_t %s[%d] = {' % (name, len(runs)))
    for i in range(0, len(runs), 16):
        out.append('    ' + ','.join('0x%x' % r for r in runs[i:i + 16]) + ',')
    out.append('};')
out.append('}  // namespace unicode14')
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'unicode14.hpp')
open(path, 'w').write('\n'.join(out) + '\n')
