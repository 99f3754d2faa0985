"""Goals over anyfloat_emu (small floats emulated through float/double) and binary8tab (the tabulated 8 bit float)."""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, Implies
from oracle import *
from vc import TU, Goal, FloatOps, REPO
import posit_goals as pg, tab_goals as tg
from posit_goals import bo, i64

class AF:
    def __init__(self, name, cxx, eb, fb, H, impl):
        self.name, self.cxx, self.f, self.H, self.impl = name, cxx, Fmt(name, eb, fb), H, impl
        self.w = self.f.w
    def defines(self): return ['-DAF=' + self.cxx]

TYPES = [AF('binary8_emu', 'binary8_emu', 5, 2, 8, SINGLE), AF('binary16_emu', 'binary16_emu', 5, 10, 16, SINGLE), AF('binary16alt_emu', 'binary16alt_emu', 8, 7, 16, SINGLE),
         AF('binary32_emu', 'binary32_emu', 8, 23, 32, SINGLE), AF('binary64_emu', 'binary64_emu', 11, 52, 64, DOUBLE), AF('any4_3', 'anyfloat_emu<4,3,microfloat,uint8_t,float>', 4, 3, 8, SINGLE)]
MORE = [AF('any6_9', 'anyfloat_emu<6,9,halffloat,uint16_t,float>', 6, 9, 16, SINGLE), AF('any5_10d', 'anyfloat_emu<5,10,halffloat,uint16_t,double>', 5, 10, 16, DOUBLE)]

def out_is(f, x, n):
    """x (64 bit word) is the pattern of format f for the number n: exact pattern, any NaN, either zero"""
    b = Extract(f.w - 1, 0, x)
    r = f.enc_reg(n.sign, n.e, n.m)
    return And(Extract(63, f.w, x) == 0 if f.w < 64 else T, If(n.nan, f.isnan(b), If(n.inf, b == f.inf(n.sign), If(n.zero, Extract(f.w - 2, 0, b) == 0, If(Extract(f.w - 2, 0, r) == 0, Extract(f.w - 2, 0, b) == 0, b == r)))))

def to(fm, n):
    """bits of the number n in fm (NaN: the usual quiet one)"""
    return If(n.nan, V(((1 << (fm.eb + 1)) - 1) << (fm.fb - 1), fm.w), If(n.inf, fm.inf(n.sign), If(n.zero, V(0, fm.w), fm.enc_reg(n.sign, n.e, n.m))))

def edge(f):
    e = [0, 1 << (f.w - 1), 1, ((1 << f.eb) - 1) << f.fb, (((1 << f.eb) - 1) << f.fb) | 1, (1 << f.w) - 1, f.bias << f.fb, ((1 << f.eb) - 2 << f.fb) | ((1 << f.fb) - 1), (1 << f.fb) - 1, 1 << f.fb]
    return e

def int_num(x):
    neg = bit(x, 31); cnt, nm = clz_norm(If(neg, -x, x))
    return Num(x == 0, F_, F_, neg, E(31) - cnt, nm)

def int_of(n):
    top = hi(n.m, 31)
    mag = If(n.e < 0, V(0, 64), zx(LShR(top, zx(E(30) - n.e, 31)), 64))
    r = If(n.e >= E(31), If(n.sign, i64(-2**31), i64(2**31 - 1)), If(n.sign, -mag, mag))
    return If(n.regular(), r, V(0, 64))

def order(f, a, b):
    A, B = f.dec(a), f.dec(b)
    lt0, eq0 = cmp_mag(A.e, A.m, B.e, B.m)
    rank = lambda X: If(X.inf, If(X.sign, V(-2, 4), V(2, 4)), If(X.zero, V(0, 4), If(X.sign, V(-1, 4), V(1, 4))))
    ra, rb = rank(A), rank(B)
    eq = And(ra == rb, Or(A.inf, A.zero, eq0))
    lt = Or(ra < rb, And(ra == rb, Not(A.inf), Not(A.zero), If(A.sign, And(Not(lt0), Not(eq0)), lt0)))
    return And(Not(A.nan), Not(B.nan)), lt, eq

def cmp_spec(f):
    def cm(xs, o):
        ok, lt, eq = order(f, xs[0], xs[1])
        return And(bo(o[0], And(ok, eq)), bo(o[1], Or(Not(ok), Not(eq))), bo(o[2], And(ok, lt)), bo(o[3], And(ok, Or(lt, eq))), bo(o[4], And(ok, Not(lt), Not(eq))), bo(o[5], And(ok, Not(lt))))
    return cm
def minmax_spec(f):
    def mm(xs, o):
        ok, lt, eq = order(f, xs[0], xs[1])
        z = lambda v: zx(v, 64)
        return Implies(And(ok, Not(eq)), And(o[0] == z(If(lt, xs[0], xs[1])), o[1] == z(If(lt, xs[1], xs[0]))))
    return mm

def emu(t):
    f, fm = t.f, t.impl
    gs = []
    one = [('a', f.w, 'u')]; two = one + [('b', f.w, 'u')]; three = two + [('c', f.w, 'u')]
    e1 = [[x] for x in edge(f)]; e2 = [[x, y] for x in edge(f)[:8] for y in edge(f)[::2]]; e3 = [[edge(f)[i % 10], edge(f)[(3 * i + 1) % 10], edge(f)[(7 * i + 2) % 10]] for i in range(10)]
    def g(grp, fn, ins, nout, spec, what, **kw):
        gs.append(Goal('%s.%s' % (t.name, fn), TU('anyf.cpp', t.defines() + ['-D' + grp]), fn, ins, nout, spec, what='%s, %s' % (what, t.name), timeout=100, **kw))
    def ops(grp, fn, ins, nout, opl, spec2, what, **kw):
        k = FloatOps(opl, spec2)
        g(grp, fn, ins, nout, k.full, what, absn=k, **kw)
    for fn, s in (('a_fromf', SINGLE), ('a_fromd', DOUBLE)):
        g('G_CONV', fn, [('x', s.w, 'u')], 1, lambda xs, o, s=s: out_is(f, o[0], s.dec(xs[0])), 'from ' + s.name, edge=[[x] for x in edge(s)])
    g('G_CONV', 'a_fromi', [('x', 32, 'u')], 1, lambda xs, o: out_is(f, o[0], int_num(xs[0])), 'from int', edge=[[0], [1], [0x80000000], [0x7fffffff], [0xffffffff]])
    for fn, s in (('a_tof', SINGLE), ('a_tod', DOUBLE), ('a_toffT', fm)):
        g('G_CONV', fn, one, 1, lambda xs, o, s=s: out_is(s, o[0], f.dec(xs[0])), 'to ' + s.name, edge=e1)
    g('G_CONV', 'a_toi', one, 1, lambda xs, o: o[0] == int_of(f.dec(xs[0])), 'to int', edge=e1)
    g('G_CONV', 'a_rt', one, 1, lambda xs, o: If(f.isnan(xs[0]), f.isnan(Extract(f.w - 1, 0, o[0])), If(Extract(f.w - 2, 0, xs[0]) == 0, Extract(f.w - 2, 0, o[0]) == 0, o[0] == zx(xs[0], 64))), 'through float or double and back', edge=e1)
    def k(xs, o):
        c = lambda v: V(v, 64)
        mx = (((1 << f.eb) - 2) << f.fb) | ((1 << f.fb) - 1); inf = ((1 << f.eb) - 1) << f.fb; sg = 1 << (f.w - 1)
        return And(o[0] == 0, o[1] == c(f.bias << f.fb), o[2] == c((f.bias + 1) << f.fb), o[3] == c(inf), o[4] == c(inf | sg), f.isnan(Extract(f.w - 1, 0, o[5])), o[6] == c(mx), o[7] == c(mx | sg), o[8] == c(1 << f.fb), o[9] == c(inf), o[10] == c(inf), o[11] == 0)
    g('G_CONV', 'a_const', [('unused', 1, 'u')], 12, k, 'constants')
    sgn = V(1 << (f.w - 1), f.w)
    g('G_UN', 'a_neg', one, 2, lambda xs, o: And(*[x == zx(xs[0] ^ sgn, 64) for x in o]), 'opposite', edge=e1)
    g('G_UN', 'a_abs', one, 2, lambda xs, o: And(*[x == zx(xs[0] & ~sgn, 64) for x in o]), 'absolute value', edge=e1)
    g('G_UN', 'a_class', one, 3, lambda xs, o: And(bo(o[0], bit(xs[0], f.w - 1)), o[1] == 1, bo(o[2], xs[0] == 0)), 'classification', edge=e1)
    g('G_UN', 'a_cmp', two, 6, cmp_spec(f), 'comparisons', edge=e2)
    g('G_UN', 'a_minmax', two, 2, minmax_spec(f), 'minimum and maximum', edge=e2)
    B = lambda x: to(fm, f.dec(x))
    R = lambda o, r: And(*[out_is(f, x, fm.dec(r)) for x in o])
    ONE = V(fm.bias << fm.fb, fm.w)
    ops('G_UN', 'a_inv', one, 2, lambda xs: [('fdiv', ONE, B(xs[0]))], lambda xs, o, rs: R(o, rs[0]), 'reciprocal', edge=e1)
    # halving multiplies a double by 0.5, doubling goes through the implementation type: exact but where those round (denormals of double) or overflow
    ops('G_UN', 'a_half', one, 1, lambda xs: [('fmul', V(0x3fe << 52, 64), to(DOUBLE, f.dec(xs[0])))], lambda xs, o, rs: out_is(f, o[0], DOUBLE.dec(rs[0])), 'half', edge=e1)
    ops('G_UN', 'a_twice', one, 1, lambda xs: [('fadd', B(xs[0]), B(xs[0]))], lambda xs, o, rs: R(o, rs[0]), 'double', edge=e1)
    for fn, op, nm in (('a_mul', 'fmul', 'product'), ('a_muleq', 'fmul', 'product'), ('a_div', 'fdiv', 'quotient')):
        ops('G_BIN', fn, two, 2 if fn.endswith('eq') else 1, lambda xs, op=op: [(op, B(xs[0]), B(xs[1]))], lambda xs, o, rs: R(o, rs[0]), nm, edge=e2)
    for fn, neg in (('a_add', 0), ('a_addeq', 0), ('a_sub', 1)):
        ops('G_BIN', fn, two, 2 if fn.endswith('eq') else 1, lambda xs, neg=neg: [('fadd', B(xs[0]), B(xs[1] ^ sgn if neg else xs[1]))], lambda xs, o, rs: R(o, rs[0]), 'difference' if neg else 'sum', edge=e2)
    ops('G_BIN', 'a_fma', three, 1, lambda xs: [('fmul', B(xs[0]), B(xs[1])), ('fadd', lambda rs: rs[0], B(xs[2]))], lambda xs, o, rs: R(o, rs[1]), 'product then sum', edge=e3)
    return gs

def c20(tier, d):
    gs = []
    for t in TYPES + (MORE if tier != 'quick' else []): gs += emu(t)
    return gs
