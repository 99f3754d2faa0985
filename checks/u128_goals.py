"""Goals over the 128 bit integer the library brings for compilers without one (typehelpers.hpp)"""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, LShR, ULE, ULT, UGE, UGT
from oracle import *
from vc import TU, Goal, Sweep, Products

def c31(tier, d):
    t = TU('u128.cpp', ['-U__SIZEOF_INT128__'])
    gs = []
    def g(fn, ins, nout, spec, what, **kw):
        kw.setdefault('timeout', 100)
        gs.append(Goal('u128.' + fn, t, fn, ins, nout, spec, what=what, **kw))
    A = [('alo', 64, 'u'), ('ahi', 64, 'u')]; B = [('blo', 64, 'u'), ('bhi', 64, 'u')]
    f = (1 << 64) - 1
    eA = [[0, 0], [f, 0], [0, 1], [f, f], [1, 1 << 63], [5, 1]]
    eAB = [x + y for x in eA for y in eA]
    u = lambda xs, k: Concat(xs[k + 1], xs[k])
    two = lambda o, r, k=0: And(o[k] == Extract(63, 0, r), o[k + 1] == Extract(127, 64, r))
    g('u_add', A + B, 2, lambda xs, o: two(o, u(xs, 0) + u(xs, 2)), 'sum', edge=eAB)
    g('u_sub', A + B, 2, lambda xs, o: two(o, u(xs, 0) - u(xs, 2)), 'difference', edge=eAB)
    g('u_lt', A + B, 1, lambda xs, o: o[0] == If(ULT(u(xs, 0), u(xs, 2)), V(1, 64), V(0, 64)), 'order', edge=eAB)
    es = [x + [n] for x in eA for n in (0, 1, 63, 64, 65, 127)]
    for fn, op in (('u_shl', lambda x, n: x << n), ('u_shr', LShR)):
        g(fn, A + [('n', 7, 'u')], 2, lambda xs, o, op=op: two(o, op(u(xs, 0), zx(xs[2], 128))), 'shift by 0 to 127', edge=es)
    g('u_lo', A, 3, lambda xs, o: And(o[0] == xs[0], o[1] == xs[0], o[2] == 0), 'conversions', edge=eA)
    def lead(x):
        r = V(128, 64)
        for i in range(128): r = If(bit(x, i), V(127 - i, 64), r)
        return r
    g('u_clz', A, 1, lambda xs, o: o[0] == lead(u(xs, 0)), 'leading zeros', pre=lambda xs: Or(xs[0] != 0, xs[1] != 0), edge=eA[1:])
    half = lambda x, k: Extract(32 * k + 31, 32 * k, x)
    def school(ps): return sum([zx(p, 128) << (32 * (k // 2 + k % 2)) for k, p in enumerate(ps)], V(0, 128))
    X = [('a', 64, 'u'), ('b', 64, 'u')]
    eX = [[x, y] for x in (0, 1, f, 1 << 63, 0xffffffff, 1 << 32, 0xffffffff00000001) for y in (0, 1, f, 1 << 63, 0xffffffff, 1 << 32)]
    ab = Products(lambda xs: [(half(xs[0], k // 2), half(xs[1], k % 2), z3.BoolVal(True)) for k in range(4)], lambda xs, o, ps: two(o, school(ps)), normal=False)
    g('u_mul', X, 2, ab.full, 'product of two words', edge=eX, absn=ab)
    # quotient of two words, the upper one normalised, as the fractions need: long division, one bit at a time
    def steps(xs, top):
        n = Concat(xs[1], xs[0]); d = zx(xs[2], 128); q = V(0, 128); hs = []
        for j in range(top, -1, -1):
            s = d << j
            ge = UGE(n, s)
            n = If(ge, n - s, n)
            q = (q << 1) | If(ge, V(1, 128), V(0, 128))
            hs += [(x, None, None) for x in (Extract(63, 0, s), Extract(127, 64, s), ge, Extract(63, 0, n), Extract(127, 64, n), Extract(63, 0, q), Extract(127, 64, q))]
        return q, hs
    for nm, lo, hi, top in (('', 1 << 63, f, 64), ('b', 1 << 62, (1 << 63) - 1, 65)):
        pre = lambda xs, lo=lo, hi=hi: And(UGE(xs[1], 1 << 63), xs[0] == 0, UGE(xs[2], lo), ULE(xs[2], hi))
        longdiv = lambda xs, o, top=top: two(o, steps(xs, top)[0])
        ins = [('nlo', 64, 'u'), ('nhi', 64, 'u'), ('d', 64, 'u')]
        if tier == 'quick': continue
        sw = Sweep(longdiv, lambda xs, pre=pre: [pre(xs)], None, lambda rng, lo=lo, hi=hi: [0, rng.randrange(1 << 63, 1 << 64), rng.randrange(lo, hi + 1)], budget=1200, hints=lambda xs, top=top: steps(xs, top)[1])
        gs.append(Goal('u128.u_div' + nm, t, 'u_div', ins, 2, longdiv, pre=pre, absn=sw, what='quotient of a normalised double word by a word', timeout=1500))
    F = [('fa', 64, 'u'), ('fb', 64, 'u'), ('s', 2, 'u')]
    def vmul(xs, o):
        p = Concat(o[5], o[4]); top = bit(p, 127); sg = bit(xs[2], 0) != bit(xs[2], 1)
        return And(o[0] == 0, o[1] == If(sg, V(1, 64), V(0, 64)), o[2] == If(top, V(1, 64), V(0, 64)), o[3] == If(top, o[5] << 1, o[5] << 2))
    g('v_mul', F, 6, vmul, 'product of unpacked numbers', edge=[[0, 0, 0], [f, f, 1], [1 << 63, 0, 2], [1 << 63, 1 << 63, 3]])
    def vdiv(xs, o):
        q = o[4]; sg = bit(xs[2], 0) != bit(xs[2], 1); less = ULT(LShR(xs[0], 1), LShR(xs[1], 1))
        return And(o[0] == 0, o[1] == If(sg, V(1, 64), V(0, 64)), o[2] == If(less, V(-1, 64), V(0, 64)), o[3] == q)
    eF = [[0, 0, 0], [f, f, 1], [1 << 63, 0, 2], [0, 1 << 63, 3]]
    gs.append(Goal('u128.v_div', t, 'v_div', F, 6, vdiv, absn=Sweep(vdiv, budget=400), what='quotient of unpacked numbers', edge=eF, timeout=450, long=450))
    return gs
