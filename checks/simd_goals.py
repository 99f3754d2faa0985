"""Goals over simd_posit8_32 (include/simdposit8.hpp): every lane does what posit8 does"""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat
from oracle import *
from vc import TU, Goal, REPO
import posit_goals as pg, tab_goals as tg

def c30(tier, d):
    tg.prepare(d, ['posit8'])
    t = TU('simd.cpp', ['-DSIMD_SRC="%s/src/simdposit8.cpp"' % REPO, '-mavx2', '-fno-unroll-loops'], native_libs=['posit8_tbl.o'])
    c = tg.CF['posit8']
    gs = []
    A = [('a%d' % i, 64, 'u') for i in range(4)]; B = [('b%d' % i, 64, 'u') for i in range(4)]
    def g(fn, ins, nout, spec, what, opaque=True):
        gs.append(Goal('simd.' + fn, t, fn, ins, nout, spec, what=what + ' of simd_posit8_32', timeout=100))
        if opaque: gs[-1].opaque = 64
    same = lambda n: lambda xs, o: And(*[o[i] == o[n + i] for i in range(n)])
    for fn, w in (('add', 'sum'), ('mul', 'product'), ('div', 'quotient'), ('sub', 'difference')): g('s_' + fn, A + B, 8, same(4), w)
    for fn in ('inv', 'inv2', 'exp2', 'exp2b', 'square', 'square2'): g('s_' + fn, A, 8, same(4), fn)
    g('s_half', A, 8, same(4), 'half'); g('s_twice', A, 8, same(4), 'double')
    g('s_tof', A, 64, same(32), 'floats')
    lanes = lambda x: [Extract(8 * i + 7, 8 * i, x) for i in range(8)]
    def lanewise(f): return lambda x: Concat(*[f(l) for l in reversed(lanes(x))])
    g('s_neg', A, 8, lambda xs, o: And(*[o[k] == lanewise(lambda l: -l)(xs[k % 4]) for k in range(8)]), 'negation')
    m = lambda f: lanewise(lambda l: If(f(l), V(255, 8), V(0, 8)))
    g('s_class', A, 12, lambda xs, o: And(*[And(o[k] == m(lambda l: l < 0)(xs[k]), o[4 + k] == m(lambda l: l == V(128, 8))(xs[k]), o[8 + k] == 0) for k in range(4)]), 'classification')
    def fill(R): return Concat(*[R] * 8)
    gf = {x.fn: x for x in pg.c03([c]) + pg.c04([c])}
    one = lambda sp: lambda xs, o: And(And(*[o[k] == fill(Extract(7, 0, o[0])) for k in range(4)]), sp(xs, [sx(Extract(7, 0, o[0]), 64)]))
    g('s_fromi', gf['h_fromi'].ins, 4, one(gf['h_fromi'].spec), 'construction from int', False)
    g('s_fromf', gf['h_fromf'].ins, 4, one(gf['h_fromf'].spec), 'construction from float', False)
    return gs
