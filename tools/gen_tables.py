#!/usr/bin/env python3
"""Derive the per-version oracle tables data/uN.txt from Unicode character
database files (UnicodeData.txt).  Run once; the result is committed, and the
checks never read UnicodeData.txt from /repo.
usage: gen_tables.py DIR_WITH_bitsN OUTDIR
Lines: A lo hi (assigned, public)  P lo hi (private use)  C lo hi (control)
       W lo hi (white space)       L cp lower (simple lowercase mapping)
"""
import sys
src, out = sys.argv[1], sys.argv[2]
def ranges(s):
    r = []
    for c in sorted(s):
        if r and r[-1][1] == c - 1: r[-1][1] = c
        else: r.append([c, c])
    return r
for v in range(7, 17):
    gc, lo, first = {}, {}, None
    for line in open(f'{src}/bits{v}/UnicodeData.txt'):
        f = line.rstrip('\n').split(';')
        if len(f) < 14: continue
        c = int(f[0], 16)
        if f[1].endswith(', First>'): first = c; continue
        if f[1].endswith(', Last>'):
            for x in range(first, c + 1): gc[x] = f[2]
            continue
        gc[c] = f[2]
        if f[13]: lo[c] = int(f[13], 16)
    A = {c for c, g in gc.items() if g not in ('Cs', 'Co')}
    P = {c for c, g in gc.items() if g == 'Co'}
    C = {c for c, g in gc.items() if g == 'Cc'}
    W = {c for c, g in gc.items() if g in ('Zs', 'Zl', 'Zp')} | {9, 10, 11, 12, 13, 0x85}
    with open(f'{out}/u{v}.txt', 'w') as o:
        for k, s in (('A', A), ('P', P), ('C', C), ('W', W)):
            for a, b in ranges(s): o.write(f'{k} {a:X} {b:X}\n')
        for c in sorted(lo): o.write(f'L {c:X} {lo[c]:X}\n')
    if v == 15:
        import unicodedata
        if unicodedata.unidata_version == '15.0.0':
            for c in range(0x110000):
                g = unicodedata.category(chr(c))
                assert (g not in ('Cn', 'Cs', 'Co')) == (c in A), hex(c)
                assert (g == 'Co') == (c in P) and (g == 'Cc') == (c in C), hex(c)
                l = chr(c).lower()
                # Python applies full case mapping; only U+0130 differs from the simple one
                e = chr(lo.get(c, c))
                assert l == e or c == 0x130, hex(c)
            print('version 15 cross-checked with python unicodedata', unicodedata.unidata_version)
