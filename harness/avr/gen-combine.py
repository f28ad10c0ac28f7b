#!/usr/bin/env python3
"""writes combine-pairs.cpp and combine-more.cpp: lazily written fields joined by commas (run once; the result is committed)"""
import itertools, os
here = os.path.dirname(os.path.abspath(__file__))
F = [(h, l) for h in range(8) for l in range(h + 1)]
dis = lambda a, b: a[0] < b[1] or b[0] < a[1]
HEAD = '''#include "mcu/register.hpp"
using namespace mcu;
#define FN extern "C" __attribute__((used, noinline))
template< address_t A, index_t h, index_t l > using F = bitfield8_t<rw_t, A, h, l>;
'''
TAIL = 'int main() { for (;;) ; }\n'
args = lambda n: ', '.join('uint8_t %c' % c for c in 'abcdefgh'[:n])
def fn(addr, fs, shape='{}'):
    name = 'cb_%s_' % addr + '_'.join('%d%d' % f for f in fs)
    terms = ['F<%s,%d,%d>::write_lazy( %c )' % (addr, f[0], f[1], c) for f, c in zip(fs, 'abcdefgh')]
    return name, 'FN void %s( %s ) { %s; }\n' % (name, args(len(fs)), ', '.join(terms))
out = HEAD
for a in F:
    for b in F:
        if dis(a, b): out += fn('0x4a', [a, b])[1]
open(here + '/combine-pairs.cpp', 'w').write(out + TAIL)
out = HEAD
for a in F:
    for b in F:
        if dis(a, b) and a[0] - a[1] in (0, 1, 2) and (a[0] + b[0]) % 2: out += fn('0x3e', [a, b])[1]
def parts(k):
    for cut in itertools.combinations(range(1, 8), k - 1):
        e = [0] + list(cut) + [8]
        yield [(e[i + 1] - 1, e[i]) for i in range(k)]
n = 0
for p in parts(3):
    for o in itertools.permutations(p): out += fn('0x6d', list(o))[1]
for p in parts(4):
    for i, o in enumerate(itertools.permutations(p)):
        if i % 7 == n % 7: out += fn('0x6d', list(o))[1]
    n += 1
for p in [[(7, 7), (6, 6), (5, 5), (4, 4), (3, 3)], [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4)], [(5, 3), (7, 7), (0, 0), (6, 6), (2, 1)]]: out += fn('0x4a', p)[1]
# grouping from the right, a named lazy write, a discarded one, two statements
out += '''FN void gr( uint8_t a, uint8_t b, uint8_t c ) { F<0x4a,7,6>::write_lazy( a ), ( F<0x4a,5,3>::write_lazy( b ), F<0x4a,1,0>::write_lazy( c ) ); }
FN void nm( uint8_t a, uint8_t b )            { auto p = F<0x4a,7,6>::write_lazy( a ); F<0x6d,7,0>::write( b ); }
FN void dc( uint8_t a, uint8_t b )            { auto p = F<0x4a,7,6>::write_lazy( a ); p.discard(); F<0x4a,5,3>::write_lazy( b ); }
FN void sq( uint8_t a, uint8_t b )            { F<0x4a,7,6>::write_lazy( a ); F<0x4a,5,3>::write_lazy( b ); }
FN void if_( uint8_t a, uint8_t b, uint8_t c ) { if ( c ) F<0x4a,7,6>::write_lazy( a ), F<0x4a,5,3>::write_lazy( b ); else F<0x4a,2,0>::write_lazy( a ); }
'''
open(here + '/combine-more.cpp', 'w').write(out + TAIL)
