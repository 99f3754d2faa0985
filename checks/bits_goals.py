"""Goals over the bit helpers (bithippop.hpp, with and without BMI) and floatconst2bits.hpp"""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, LShR, ULE, ULT, UGE, UGT
from oracle import *
from vc import TU, Goal

def field(x, off, size):
    """bits off .. off+size-1 of x, as 64 bits; off and size are terms of 64 bits"""
    X = zx(x, 128); O, S = zx(off, 128), zx(size, 128)
    return Extract(63, 0, LShR(X, O) & ((V(1, 128) << S) - 1))
def msk(size): return Extract(63, 0, (V(1, 128) << zx(size, 128)) - 1)
def lead(x):
    w = x.size(); r = V(w, 64)
    for i in range(w): r = If(bit(x, i), V(w - 1 - i, 64), r)
    return r

def mode(m):
    bmi = m == 'bmi'
    # the instruction set flag of the driver comes first, so the last one wins
    t = TU('bits.cpp', ['-std=gnu++14'] + (['-DWANT_BMI', '-mbmi'] if bmi else ['-mno-bmi', '-march=x86-64']))
    gs = []
    def g(fn, ins, nout, spec, what, pre=None, edge=None, **kw): gs.append(Goal('%s.%s' % (m, fn), t, fn, ins, nout, spec, pre=pre, edge=edge, what=what, timeout=100, **kw))
    Z = lambda x: zx(x, 64) if x.size() < 64 else x
    for w in (8, 16, 32, 64):
        x, y = ('x', w, 'u'), ('y', w, 'u'); off, size = ('off', 7, 'u'), ('size', 7, 'u')
        inr = lambda o, s, w=w, lo=1: And(UGE(s, lo), ULE(s, w), ULE(o, w - 1), ULE(o + s, w))
        g('clz_%d' % w, [x], 1, lambda xs, o: o[0] == lead(xs[0]), 'leading zeros', pre=lambda xs: xs[0] != 0)
        g('mask_%d' % w, [size], 1, lambda xs, o: o[0] == msk(Z(xs[0])), 'bitmask of as many ones', pre=lambda xs, w=w: ULE(xs[0], w), edge=[[0], [1], [w]])
        e3 = [[(1 << w) - 1, 0, w], [0x5a5a5a5a5a5a5a5a & ((1 << w) - 1), 2, 5], [0x81, w - 1, 1], [0x5a, 1, 3]]
        g('get_%d' % w, [x, off, size], 1, lambda xs, o: o[0] == field(xs[0], Z(xs[1]), Z(xs[2])), 'a bit field', pre=lambda xs, inr=inr: inr(xs[1], xs[2]), edge=e3)
        def part(x, y, of, s):
            mk = msk(s) << of
            return (Z(x) & ~mk) | ((Z(y) << of) & mk)
        g('part_%d' % w, [x, y, off, size], 1, lambda xs, o, part=part, w=w: o[0] == part(xs[0], xs[1], Z(xs[2]), Z(xs[3])), 'a bit field replaced', pre=lambda xs, inr=inr: inr(xs[2], xs[3]),
          edge=[[a, 0x33, b, c] for a, b, c in e3] + [[0, 0xff, 2, 5], [0x10, 0xff, 2, 5]])
        g('shr_%d' % w, [x, ('n', 63, 'u')], 1, lambda xs, o, w=w: o[0] == Extract(63, 0, If(UGE(Z(xs[1]), V(w, 64)), V(0, 64), LShR(Z(xs[0]), Z(xs[1])))), 'right shift by any amount', edge=[[0xff, 0], [0xff, w], [0xff, w - 1], [0xff, w + 1], [0xff, 1 << 40]])
        c = lambda k: V(k, 64)
        g('getT_%d' % w, [x], 9, lambda xs, o, w=w, c=c: And(o[0] == field(xs[0], c(0), c(1)), o[1] == field(xs[0], c(w - 1), c(1)), o[2] == field(xs[0], c(2), c(3)), o[3] == Z(xs[0]), o[4] == field(xs[0], c(w // 2 - 1), c(w // 2)),
          o[5] == field(xs[0], c(w - 3), c(3)), o[6] == 0, o[7] == field(xs[0], c(w - w // 2 - 1), c(w // 2 + 1)), o[8] == Z(xs[0])), 'constant bit fields')
        g('partT_%d' % w, [x, y], 4, lambda xs, o, w=w, c=c, part=part: And(o[0] == part(xs[0], xs[1], c(0), c(1)), o[1] == part(xs[0], xs[1], c(2), c(5)), o[2] == part(xs[0], xs[1], c(w - 3), c(3)), o[3] == Z(xs[1])), 'constant bit fields replaced')
        g('msb_%d' % w, [x], 5, lambda xs, o, w=w, c=c: And(o[0] == Z(xs[0]), o[1] == field(xs[0], c(w - 5), c(5)), o[2] == field(xs[0], c(0), c(5)), o[3] == Z(xs[0]), o[4] == Z(xs[0])), 'bits at the two ends')
        g('abs_%d' % w, [('x', w, 's')], 2, lambda xs, o: And(*[r == Z(If(xs[0] < 0, -xs[0], xs[0])) for r in o]), 'absolute value', pre=lambda xs, w=w: xs[0] != V(1 << (w - 1), w))
    g('clz64', [('x', 64, 'u')], 1, lambda xs, o: o[0] == lead(xs[0]), 'leading zeros', pre=lambda xs: xs[0] != 0)
    for n in ('8_8_16_16', '16_16_8_8', '32_32_64_64', '64_64_32_32', '16_16_16_16', '8_8_64_64', '64_64_8_8'):
        A, a, Bt, b = map(int, n.split('_'))
        g('cm_' + n, [('x', A, 'u')], 1, lambda xs, o, b=b: o[0] == Z(hi(xs[0], b)), 'left aligned value moved to another width')
    for n in ('32_23_64_64', '32_23_32_32', '32_23_16_16', '32_23_8_8', '64_52_64_64', '64_52_32_32', '64_52_8_8', '16_10_16_16', '16_10_8_8', '8_8_8_8'):
        A, a, Bt, b = map(int, n.split('_'))
        g('rl_' + n, [('x', A, 'u')], 1, lambda xs, o, a=a, b=b: o[0] == Z(hi(Extract(a - 1, 0, xs[0]), b)), 'right aligned field moved to the left of another width')
    if bmi:
        g('hw', [('x', 32, 'u'), ('off', 5, 'u'), ('size', 6, 'u')], 2, lambda xs, o: And(o[1] == field(xs[0], Z(xs[1]), Z(xs[2])), o[0] == Extract(63, 0, zx(Extract(15, 0, field(Extract(15, 0, xs[0]), Z(xs[1]), Z(xs[2]))), 64))), 'bit field by instruction',
          pre=lambda xs: And(UGE(xs[2], 1), ULE(xs[2], 32), ULE(zx(xs[1], 8) + zx(xs[2], 8), 32)))
        fl = [(2, 3, 8), (2, 3, 16), (2, 3, 32), (2, 3, 64), (7, 1, 8), (5, 11, 16), (23, 8, 32), (52, 11, 64)]
        g('hwT', [('x', 64, 'u')], 8, lambda xs, o: And(*[r == Z(Extract(a + s - 1, a, xs[0])) for r, (a, s, w) in zip(o, fl)]), 'constant bit fields by instruction')
    if bmi:
        isn = lambda x: UGT(Extract(30, 0, x), V(0x7f800000, 31))
        g('f2b', [('x', 32, 'u')], 1, lambda xs, o: o[0] == Z(If(isn(xs[0]), V(0x7fc00000, 32), If(Extract(30, 0, xs[0]) == 0, V(0, 32), xs[0]))), 'bits of a float found by arithmetic', edge=[[1], [0x7fffff], [0x800000], [0x7f7fffff], [0xff800000], [0x80000001], [0x3f800000]])
        g('lz', [('x', 64, 'u')], 1, lambda xs, o: o[0] == lead(xs[0]), 'leading zeros by multiplication', pre=lambda xs: xs[0] != 0)
    return gs

def c29(tier, d): return mode('bmi') + mode('portable')
