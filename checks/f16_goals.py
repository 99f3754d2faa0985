"""Goals over float16n32: half precision kept in 16 bits and computed in single precision, with its own conversions (truncating) and with those of the processor (F16C: to nearest even)."""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat
from oracle import *
from vc import TU, Goal, FloatOps
import anyf_goals as ag
from posit_goals import bo
from llsym import fconv

f = HALF
def mode(m):
    hard = m == 'f16c'
    t = TU('f16.cpp', ['-DWANT_F16C'] if hard else [], extra=['-mavx', '-mf16c'] if hard else [], native_extra=['-mavx', '-mf16c'] if hard else ['-mno-f16c'])
    gs = []
    one = [('a', 16, 'u')]; two = one + [('b', 16, 'u')]; three = two + [('c', 16, 'u')]
    e1 = [[x] for x in ag.edge(f)]; e2 = [[x, y] for x in ag.edge(f)[:8] for y in ag.edge(f)[::2]]; e3 = [[ag.edge(f)[i % 10], ag.edge(f)[(3 * i + 1) % 10], ag.edge(f)[(7 * i + 2) % 10]] for i in range(10)]
    def g(fn, ins, nout, spec, what, **kw): gs.append(Goal('%s.%s' % (m, fn), t, fn, ins, nout, spec, what='%s of float16n32 (%s)' % (what, m), timeout=100, **kw)); gs[-1].isnan = lambda v: v & 0x7fff > 0x7c00 and v < 65536
    def ops(fn, ins, nout, opl, spec2, what, **kw):
        k = FloatOps(opl, spec2); g(fn, ins, nout, k.full, what, absn=k, **kw)
    z = lambda x: zx(x, 64)
    mag0 = lambda x: Extract(f.w - 2, 0, x) == 0
    def B(x):
        """to single: exact (the sign of zero is only kept by the processor)"""
        r = ag.to(SINGLE, f.dec(x))
        return If(And(mag0(x), z3.BoolVal(hard)), Concat(Extract(15, 15, x), V(0, 31)), r)
    def N(o, r):
        """o is the half for the single r"""
        b = Extract(15, 0, o)
        if not hard: return ag.out_is(f, o, SINGLE.dec(r))
        return And(Extract(63, 16, o) == 0, If(SINGLE.isnan(r), f.isnan(b), b == fconv(r, 'float', 'half')))
    R = lambda o, r: And(*[N(x, r) for x in o])
    g('n_fromf', [('x', 32, 'u')], 2, lambda xs, o: R(o, xs[0]), 'conversion from single', edge=[[x] for x in ag.edge(SINGLE)])
    def same(x, a): return If(f.isnan(a), f.isnan(Extract(15, 0, x)), If(mag0(a), Extract(14, 0, x) == 0, x == z(a)))
    g('n_tof', one, 5, lambda xs, o: And(ag.out_is(SINGLE, o[0], f.dec(xs[0])), ag.out_is(DOUBLE, o[1], f.dec(xs[0])), ag.out_is(SINGLE, o[2], f.dec(xs[0])), o[3] == z(xs[0]), o[4] == z(xs[0])), 'conversion to single and double', edge=e1)
    g('n_rt', one, 1, lambda xs, o: same(o[0], xs[0]), 'to single and back', edge=e1)
    g('n_const', [('unused', 1, 'u')], 4, lambda xs, o: And(o[0] == 0, o[1] == 0, o[2] == 0x3c00, o[3] == 0x4000), 'constants')
    g('n_neg', one, 2, lambda xs, o: And(*[x == z(xs[0] ^ V(0x8000, 16)) for x in o]), 'opposite', edge=e1)
    g('n_abs', one, 2, lambda xs, o: And(*[x == z(xs[0] & V(0x7fff, 16)) for x in o]), 'absolute value', edge=e1)
    def cm(xs, o):
        ok, lt, eq = ag.order(f, xs[0], xs[1])
        return And(bo(o[0], And(ok, eq)), bo(o[1], And(ok, lt)), bo(o[2], And(ok, Or(lt, eq))), bo(o[3], And(ok, Not(lt), Not(eq))), bo(o[4], And(ok, Not(lt))))
    g('n_cmp', two, 5, cm, 'order', edge=e2)
    R0 = lambda xs, o, r: R(o, r[0])
    ops('n_add', two, 3, lambda xs: [('fadd', B(xs[0]), B(xs[1]))], R0, 'sum', edge=e2)
    ops('n_sub', two, 1, lambda xs: [('fadd', B(xs[0]), B(xs[1]) ^ V(1 << 31, 32))], R0, 'difference', edge=e2)
    ops('n_mul', two, 3, lambda xs: [('fmul', B(xs[0]), B(xs[1]))], R0, 'product', edge=e2)
    ops('n_div', two, 1, lambda xs: [('fdiv', B(xs[0]), B(xs[1]))], R0, 'quotient', edge=e2)
    ops('n_square', one, 1, lambda xs: [('fmul', B(xs[0]), B(xs[0]))], R0, 'square', edge=e1)
    ops('n_inv', one, 1, lambda xs: [('fdiv', V(0x3f800000, 32), B(xs[0]))], R0, 'reciprocal', edge=e1)
    ops('n_half', one, 1, lambda xs: [('fdiv', B(xs[0]), V(0x40000000, 32))], R0, 'half', edge=e1)
    ops('n_muladd', three, 1, lambda xs: [('fmul', B(xs[0]), B(xs[1])), ('fadd', lambda r: r[0], B(xs[2]))], lambda xs, o, r: R(o, r[1]), 'product then sum', edge=e3)
    ops('n_sqrt', one, 1, lambda xs: [('fsqrt', B(xs[0]), B(xs[0]))], R0, 'square root', edge=e1)
    ops('n_rem', two, 1, lambda xs: [('fremainder', B(xs[0]), B(xs[1]))], R0, 'remainder', edge=e2)
    return gs

def c28(tier, d): return mode('software') + mode('f16c')
