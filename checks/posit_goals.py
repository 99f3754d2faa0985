"""Goals over Posit<T,N,ES,FT,Spec>: for every property, the wrappers of harness/posit.cpp and what they must return."""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, ZeroExt, SignExt, ULT, ULE, UGT, UGE, Implies
from oracle import *
from vc import TU, Goal, Products, Quotient, Cut, Sweep
import unpacked_goals as ug

C = Cfg
QUICK = [C(8, 8, 0, 8, 'WithNan'), C(8, 8, 0, 16, 'WithNanInf'), C(8, 6, 1, 8, 'WithInf'), C(8, 5, 2, 8, 'WithNan'), C(8, 4, 0, 8, 'WithNanInf'), C(16, 9, 3, 16, 'WithInf'),
         C(16, 12, 2, 16, 'WithNan'), C(16, 10, 2, 16, 'WithNanInf'), C(16, 16, 1, 32, 'WithNan'), C(16, 16, 1, 16, 'WithInf'), C(32, 32, 2, 64, 'WithNan'), C(32, 32, 2, 32, 'WithNanInf'),
         C(32, 28, 5, 64, 'WithNan'), C(32, 16, 1, 32, 'WithNan'), C(32, 8, 0, 32, 'WithInf'), C(64, 48, 3, 64, 'WithNan'), C(64, 32, 2, 64, 'WithNanInf')]
MORE = [C(8, 7, 0, 32, 'WithInf'), C(8, 8, 1, 8, 'WithInf'), C(8, 8, 2, 16, 'WithNan'), C(8, 3, 0, 8, 'WithNan'), C(8, 8, 4, 8, 'WithNanInf'), C(16, 14, 1, 64, 'WithInf'), C(16, 16, 2, 32, 'WithNanInf'), C(16, 16, 3, 16, 'WithNan'),
        C(32, 20, 3, 32, 'WithInf'), C(32, 24, 1, 32, 'WithNan'), C(32, 32, 3, 64, 'WithInf'), C(32, 31, 2, 64, 'WithNan'), C(64, 40, 4, 64, 'WithInf'), C(64, 64, 3, 64, 'WithNan')]

def tu(c, *groups, **kw):
    return TU('posit.cpp', c.defines() + ['-D' + g for g in groups], **kw)

def pv(n, c): return (n, c.N, 's')
def ret(c, o):
    """(pattern, valid): the holder must be the sign extension of an N bit pattern"""
    b = Extract(c.N - 1, 0, o)
    return b, sx(b, 64) == o if c.N < 64 else z3.BoolVal(True)
def eqp(c, o, b):
    return o == sx(b, 64)
def bo(o, c): return o == If(c, V(1, 64), V(0, 64))
def i64(n): return V(n & (2**64 - 1), 64)

TYPE = dict(Regular=0, Infinity=1, NaN=2, Zero=3)
def type_of(x): return If(x.nan, V(2, 64), If(x.inf, V(1, 64), If(x.zero, V(3, 64), V(0, 64))))
def ebits(c):
    """width of PositTrait::exponenttype"""
    return {8: 16, 16: 32, 32: 64, 64: 128}[c.H] if c.H == 8 or c.N + c.es >= c.H else c.H

def edges(c, k=1):
    s = [0, 1, c.TOP, c.TOP - 1, c.TOP + 1, c.MAXPOS, 1 << (c.N - 2), (1 << c.N) - 1]
    if k == 1: return [[x] for x in s]
    if k == 2: return [[x, y] for x in s for y in (s[0], s[2], s[3], s[6], s[7])]
    return [[s[i % 8], s[(i * 3 + 1) % 8]] + [s[(i * 5 + j) % 8] for j in range(k - 2)] for i in range(10)]

# ------------------------------------------------------------------ C01 decoding
def frac_out(c, n, w):
    """fraction (without hidden one) left aligned on w bits (truncated if longer), as 64 bits"""
    fr = Extract(n.mw - 2, 0, n.m)
    return zx(hi(fr, w), 64)

def unpack_spec(c):
    def spec(xs, o):
        n = c.dec(xs[0])
        reg = n.regular()
        return And(o[0] == type_of(n), Implies(reg, And(bo(o[1], n.sign), o[2] == sx(n.e, 64), o[3] == frac_out(c, n, c.FT))),
                   Implies(n.inf, bo(o[1], n.sign)))
    return spec

def c01(cfgs):
    gs = []
    for c in cfgs:
        t = tu(c, 'G_DEC')
        for fn in ('h_unpack', 'h_convop'):
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, [pv('a', c)], 4, unpack_spec(c), edge=edges(c), what='decoded (type, sign, exponent, fraction) of %s' % c.describe()))
        def low(xs, o, c=c):
            n = c.dec(xs[0]); N = c.N
            e, fr, k, run = c.mag_dec(Extract(N - 2, 0, c.mag(xs[0])))
            ex = e & E((1 << c.es) - 1)
            return And(o[0] == type_of(n), Implies(n.regular(), And(bo(o[1], n.sign), o[2] == sx(k, 64), o[3] == zx(ex, 64), o[4] == frac_out(c, n, c.H))))
        gs.append(Goal('%s.h_low' % c.name, t, 'h_low', [pv('a', c)], 5, low, edge=edges(c), what='regime, exponent and fraction fields'))
        def cl(xs, o, c=c):
            a = xs[0]
            return And(bo(o[0], c.isnan(a)), bo(o[1], c.isinf(a)), bo(o[2], a == 0), bo(o[3], bit(a, c.N - 1)), bo(o[4], a == V(1 << (c.N - 2), c.N)), bo(o[5], z3.BoolVal(c.hasnan)))
        gs.append(Goal('%s.h_class' % c.name, t, 'h_class', [pv('a', c)], 6, cl, edge=edges(c), what='classification'))
    return gs

# ------------------------------------------------------------------ C02 encode(decode) and conversions there and back
def c02(cfgs):
    gs = []
    for c in cfgs:
        t = tu(c, 'G_RT')
        fits = c.F <= c.FT
        same = lambda xs, o, c=c: And(*[eqp(c, x, xs[0]) for x in o])
        if fits:
            gs.append(Goal('%s.h_rtu' % c.name, t, 'h_rtu', [pv('a', c)], 1, same, edge=edges(c), what='Posit(p.unpack()) == p'))
            gs.append(Goal('%s.h_lowfull' % c.name, t, 'h_lowfull', [pv('a', c)], 5, lambda xs, o, c=c: And(eqp(c, o[4], xs[0]), unpack_spec(c)(xs, o[:4])), edge=edges(c), what='full/low forms'))
        gs.append(Goal('%s.h_rtlow' % c.name, t, 'h_rtlow', [pv('a', c)], 2, same, edge=edges(c), what='pack_low(p.unpack_low()) == p'))
        for fn, fm in (('h_rtf', SINGLE), ('h_rtbin', SINGLE), ('h_rtd', DOUBLE)):
            if c.F <= min(fm.fb, c.FT) and c.maxexp <= fm.bias and c.minexp >= -fm.bias - fm.fb + 1 + (c.F if c.minexp < 1 - fm.bias else 0):
                # an infinity that is not signed may come back with either sign of the same pattern
                gs.append(Goal('%s.%s' % (c.name, fn), t, fn, [pv('a', c)], 1, same, edge=edges(c), what='through %s and back' % fm.name))
        # encoding of any unpacked number: largest posit not above it in magnitude
        eb = min(ebits(c), 64)
        def pk(xs, o, c=c, eb=eb):
            ty, sg, ex, fr = xs
            big = V(c.maxexp + 1, eb) if eb > EW else None
            e = Extract(EW - 1, 0, ex) if eb > EW else sx(ex, EW)
            if eb > EW:
                e = If(ex > V(c.maxexp, eb), E(c.maxexp + 1), If(ex < V(c.minexp, eb), E(c.minexp - 1), e))
            n = Num(ty == 3, ty == 2, ty == 1, sg == 1, e, Concat(V(1, 1), fr))
            return eqp(c, o[0], c.enc(n))
        gs.append(Goal('%s.h_packu' % c.name, t, 'h_packu', [('type', 2, 'u'), ('sign', 1, 'u'), ('exp', eb, 's'), ('frac', c.FT, 'u')], 1, pk, what='encoding of any (type, sign, exponent, fraction)'))
    return gs

# ------------------------------------------------------------------ C03 from float/double
def c03(cfgs):
    gs = []
    for c in cfgs:
        t = tu(c, 'G_FROMF')
        for fn, fm in (('h_fromf', SINGLE), ('h_fromd', DOUBLE), ('h_frombin', SINGLE)):
            def sp(xs, o, c=c, fm=fm):
                return eqp(c, o[0], c.enc(fm.dec(xs[0])))
            ed = [[0], [1 << (fm.w - 1)], [1], [((1 << fm.eb) - 1) << fm.fb], [(((1 << fm.eb) - 1) << fm.fb) | 1], [(1 << fm.w) - 1], [fm.bias << fm.fb], [((1 << fm.eb) - 2 << fm.fb) | ((1 << fm.fb) - 1)], [(1 << fm.fb) - 1],
                  [((1 << (fm.eb + 1)) - 1) << fm.fb]]
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, [('x', fm.w, 'u')], 1, sp, edge=ed, what='%s from %s bits' % (c.describe(), fm.name)))
    return gs

# ------------------------------------------------------------------ C04 int
def c04(cfgs):
    gs = []
    for c in cfgs:
        t = tu(c, 'G_INT')
        def fr(xs, o, c=c):
            x = xs[0]
            neg = bit(x, 31); mg = If(neg, -x, x)
            cnt, nm = clz_norm(mg)
            return eqp(c, o[0], c.enc(Num(x == 0, F_, F_, neg, E(31) - cnt, nm)))
        gs.append(Goal('%s.h_fromi' % c.name, t, 'h_fromi', [('x', 32, 'u')], 1, fr, edge=[[0], [1], [0x80000000], [0x7fffffff], [0xffffffff], [2]], what='from int'))
        def to(xs, o, c=c):
            n = c.dec(xs[0])
            up = n.e >= E(31)
            top = hi(n.m, 31)                     # integer part: the e+1 top bits of the mantissa
            mag = If(n.e < 0, V(0, 64), zx(LShR(top, zx(E(30) - n.e, 31)), 64))
            r = If(up, If(n.sign, i64(-2**31), i64(2**31 - 1)), If(n.sign, -mag, mag))
            return o[0] == If(n.regular(), r, V(0, 64))
        gs.append(Goal('%s.h_toi' % c.name, t, 'h_toi', [pv('a', c)], 1, to, edge=edges(c), what='to int'))
    return gs

# ------------------------------------------------------------------ C05 to float/double
def c05(cfgs):
    gs = []
    for c in cfgs:
        t = tu(c, 'G_TOF')
        for fn, fm in (('h_tof', SINGLE), ('h_tod', DOUBLE)):
            def sp(xs, o, c=c, fm=fm):
                n = c.dec(xs[0])
                # the fraction goes through FT
                m = n.m if c.F <= c.FT else Extract(n.mw - 1, n.mw - 1 - c.FT, n.m)
                r = fm.enc_reg(n.sign, n.e, m)
                def one(x):
                    hiok = Extract(63, fm.w, x) == 0 if fm.w < 64 else z3.BoolVal(True)
                    x = Extract(fm.w - 1, 0, x)
                    return And(hiok, If(n.nan, fm.isnan(x), If(n.inf, And(fm.isinf(x), Or(z3.BoolVal(c.spec == 'WithInf'), bit(x, fm.w - 1) == n.sign)), If(n.zero, x == 0, x == r))))
                return And(*[one(x) for x in o])
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, [pv('a', c)], 2 if fn == 'h_tof' else 1, sp, edge=edges(c), what='%s to %s' % (c.describe(), fm.name)))
    return gs

# ------------------------------------------------------------------ C06 opposite, absolute value
def c06(cfgs):
    gs = []
    for c in cfgs:
        t = tu(c, 'G_NEG')
        top = lambda c: V(c.TOP, c.N)
        gs.append(Goal('%s.h_neg' % c.name, t, 'h_neg', [pv('a', c)], 3, lambda xs, o, c=c: And(*[eqp(c, x, If(xs[0] == top(c), top(c), -xs[0])) for x in o]), edge=edges(c), what='opposite'))
        def num_neg(xs, o, c=c):
            a = xs[0]; r = Extract(c.N - 1, 0, o[0]); A, R = c.dec(a), c.dec(r)
            return And(A.nan == R.nan, A.inf == R.inf, A.zero == R.zero, Implies(A.regular(), And(A.sign != R.sign, A.e == R.e, A.m == R.m)))
        gs.append(Goal('%s.h_neg.value' % c.name, t, 'h_neg', [pv('a', c)], 3, num_neg, edge=edges(c), what='value of the opposite'))
        gs.append(Goal('%s.h_abs' % c.name, t, 'h_abs', [pv('a', c)], 2, lambda xs, o, c=c: And(*[eqp(c, x, If(And(bit(xs[0], c.N - 1), xs[0] != top(c)), -xs[0], xs[0])) for x in o]), edge=edges(c), what='absolute value'))
    return gs

# ------------------------------------------------------------------ C07 order
def c07(cfgs):
    gs = []
    for c in cfgs:
        t = tu(c, 'G_CMP')
        def cmpv(a, b, c):
            """(lt, eq) of the values: decoded, not the patterns"""
            A, B = c.dec(a), c.dec(b)
            lt0, eq0 = cmp_mag(A.e, A.m, B.e, B.m)
            gt0 = And(Not(lt0), Not(eq0))
            # infinities: signed for WithNanInf; the unsigned one is below everything (as its pattern)
            def rank(X): return If(X.inf, If(X.sign, V(-2, 4), V(2, 4)), If(X.zero, V(0, 4), If(X.sign, V(-1, 4), V(1, 4))))
            ra, rb = rank(A), rank(B)
            same = ra == rb
            eq = And(same, Or(A.inf, A.zero, eq0))
            lt = Or(ra < rb, And(same, Not(A.inf), Not(A.zero), If(A.sign, gt0, lt0)))
            return A, B, lt, eq
        def cm(xs, o, c=c):
            A, B, lt, eq = cmpv(xs[0], xs[1], c)
            un = Or(A.nan, B.nan)
            ok = Not(un)
            return And(bo(o[0], And(ok, eq)), bo(o[1], Or(un, Not(eq))), bo(o[2], And(ok, lt)), bo(o[3], And(ok, Or(lt, eq))), bo(o[4], And(ok, Not(lt), Not(eq))), bo(o[5], And(ok, Not(lt))))
        gs.append(Goal('%s.h_cmp' % c.name, t, 'h_cmp', [pv('a', c), pv('b', c)], 6, cm, edge=edges(c, 2), what='comparisons agree with the order of the decoded values', weight=c.N))
        def mm(xs, o, c=c):
            A, B, lt, eq = cmpv(xs[0], xs[1], c)
            return Implies(Not(Or(A.nan, B.nan)), And(eqp(c, o[0], If(lt, xs[0], xs[1])), eqp(c, o[1], If(lt, xs[1], xs[0]))))
        gs.append(Goal('%s.h_minmax' % c.name, t, 'h_minmax', [pv('a', c), pv('b', c)], 2, mm, edge=edges(c, 2), what='min and max', weight=c.N))
        def st(xs, o, c=c):
            a = xs[0]
            mx, mn = V(c.MAXPOS, c.N), V(-c.MAXPOS, c.N)
            nx = If(Or(c.special(a), a == mx), a, a + 1)
            pr = If(Or(c.special(a), a == mn), a, a - 1)
            return And(eqp(c, o[0], nx), eqp(c, o[1], pr))
        gs.append(Goal('%s.h_step' % c.name, t, 'h_step', [pv('a', c)], 2, st, edge=edges(c), what='next and prev stay among the finite posits'))
    return gs

# ------------------------------------------------------------------ sums
def add_special(c, a, b, reg):
    """result pattern for a+b given the result `reg` of two regular operands"""
    A, B = c.dec(a), c.dec(b)
    z = V(0, c.N)
    r = If(A.zero, b, If(B.zero, a, reg))
    if c.hasinf:
        opp = And(A.inf, B.inf, A.sign != B.sign) if c.spec == 'WithNanInf' else F_
        r = If(Or(A.inf, B.inf), If(opp, c.nan_or(), If(A.inf, a, b)), r)
    if c.hasnan: r = If(Or(A.nan, B.nan), c.nan_or(), r)
    return r

def faithful(c, R, z, sign, e, m, loose, lost_in=F_):
    """R: N bit result for the exact value (sign, e, m); R must be the truncation, or when `loose` and it is inexact also the next one away from zero"""
    t, inex = c.enc_mag(e, m, lost_in)
    mg = If(sign, -R, R)
    nxt = And(loose, inex, t != V(c.MAXPOS, c.N), mg == t + 1)
    return If(z, R == 0, Or(mg == t, nxt))

def add_ok(c, a, b, R, A=None, B=None):
    if A is None: A, B = c.dec(a), c.dec(b)
    z, s, e, m, d, sub = exact_add(A, B)
    # bits of the smaller operand below the fraction type are dropped before a subtraction
    spare = c.FT - 2 - c.F
    loose = And(sub, d > E(spare)) if spare >= 0 else z3.BoolVal(True)
    both = And(A.regular(), B.regular())
    return If(both, faithful(c, R, z, s, e, m, loose), R == add_special(c, a, b, V(0, c.N)))

def exact_cfg(c): return c.FT - 2 >= c.F

class FTView:
    """a decoded posit with its fraction left aligned on the fraction type"""
    def __init__(self, c, n):
        self.n = n; self.sign, self.e = n.sign, n.e
        self.f = hi(Extract(n.mw - 2, 0, n.m), c.FT)
        self.m = Concat(V(1, 1), self.f)

def strict_enc(c, o, sign, e, f, z=F_):
    r, _ = c.enc_mag(e, Concat(V(1, 1), f))
    return eqp(c, o, If(z, V(0, c.N), If(sign, -r, r)))

def focus(c, k): return lambda xs: [c.dec(xs[i]).regular() for i in range(k)]

def gen(c, k):
    """operands of comparable magnitude more often than not"""
    def g(rng):
        N = c.N; M = (1 << N) - 1
        a = rng.getrandbits(N)
        if rng.random() < .5:                       # moderate regime
            a = (1 << (N - 2)) ^ rng.getrandbits(N - 1) >> rng.choice([1, 2, 3]) if N > 5 else a
            if rng.random() < .5: a = -a
        v = [a & M]
        while len(v) < k:
            c_ = rng.random()
            if c_ < .3: b = rng.getrandbits(N)
            elif c_ < .5: b = v[0] ^ (rng.getrandbits(N) >> rng.randrange(1, N))
            elif c_ < .7: b = -(v[0] ^ (rng.getrandbits(N) >> rng.randrange(1, N)))
            else:
                b = (1 << (N - 2)) ^ rng.getrandbits(N - 1) >> rng.choice([1, 2, 3]) if N > 5 else rng.getrandbits(N)
                if rng.random() < .5: b = -b
            v.append(b & M)
        return v
    return g

def add_spec(c, neg=False):
    def ad(xs, o):
        R, v = ret(c, o[0])
        b = xs[1]
        if neg: b = If(b == V(c.TOP, c.N), b, -b)
        return And(v, add_ok(c, xs[0], b, R))
    return ad

def add_strict(c, neg=False):
    def ad(xs, o):
        A, B = FTView(c, c.dec(xs[0])), FTView(c, c.dec(xs[1]))
        if neg: B.sign = Not(B.sign)
        alts, sub, lost = ug.uadd_ref(c, A, B)
        _, z, s, e, f = alts[0]
        return strict_enc(c, o[0], s, e, f, z)
    return ad

def add_focus(c, neg): return lambda xs: [c.dec(xs[i]).regular() for i in (0, 1)] + [xs[0] != (xs[1] if neg else -xs[1])]

def add_hints(c, neg=False):
    def h(xs):
        A, B = FTView(c, c.dec(xs[0])), FTView(c, c.dec(xs[1]))
        if neg: B.sign = Not(B.sign)
        alts, sub, lost = ug.uadd_ref(c, A, B)
        _, z, s, e, f = alts[0]
        r = [(v.e, c.minexp, c.maxexp) for v in (A, B)] + [(v.f, None, None) for v in (A, B)]
        return r + [(v.sign, None, None) for v in (A, B)] + [(s, None, None), (e, c.minexp, c.maxexp + 1)]
    return h

def c08(cfgs):
    gs = []
    for c in cfgs:
        if not exact_cfg(c): continue
        t = tu(c, 'G_ADD')
        two = [pv('a', c), pv('b', c)]
        for fn, neg, wh in (('h_add', False, 'sum'), ('h_sub', True, 'difference')):
            k = Sweep(add_spec(c, neg), add_focus(c, neg), add_strict(c, neg), gen(c, 2), hints=add_hints(c, neg))
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, two, 1, k.full, absn=k, edge=edges(c, 2), what='%s of %s' % (wh, c.describe()), timeout=120, weight=10 * c.N))
        k = Sweep(lambda xs, o: o[0] == o[1], focus(c, 2), None, gen(c, 2))
        gs.append(Goal('%s.h_addeq' % c.name, t, 'h_addeq', two, 2, k.full, absn=k, edge=edges(c, 2), what='a+=b leaves a+b, %s' % c.describe(), timeout=60))
    return gs

# ------------------------------------------------------------------ products
def mul_special(c, a, b, reg):
    A, B = c.dec(a), c.dec(b)
    sg = A.sign != B.sign
    r = If(Or(A.zero, B.zero), V(0, c.N), reg)
    if c.hasinf: r = If(Or(A.inf, B.inf), If(Or(A.zero, B.zero), c.nan_or(), c.inf(sg)), r)
    if c.hasnan: r = If(Or(A.nan, B.nan), c.nan_or(), r)
    return r

def mul_abs(c, extra=None):
    def operands(xs):
        A, B = c.dec(xs[0]), c.dec(xs[1])
        return [(A.m, B.m, And(A.regular(), B.regular()))]
    def spec2(xs, o, ps):
        A, B = c.dec(xs[0]), c.dec(xs[1])
        e, m = prod_mant(ps[0], A.e, B.e)
        r, _ = c.enc_mag(e, m)
        r = If(A.sign != B.sign, -r, r)
        return And(*[eqp(c, x, mul_special(c, xs[0], xs[1], r)) for x in o])
    return Products(operands, spec2)

def mul_view(c, xs):
    """(sign, e, fraction on FT) of the product of two regular operands, laid out over twice the fraction type"""
    A, B = FTView(c, c.dec(xs[0])), FTView(c, c.dec(xs[1]))
    FT = c.FT
    ma, mb = Extract(FT, 1, A.m), Extract(FT, 1, B.m)
    p = Extract(2 * FT - 1, FT, zx(ma, 2 * FT) * zx(mb, 2 * FT))
    q = Extract(FT - 1, FT - 1, p) == 0
    f = If(q, p << 1, p) << 1
    return A, B, Xor(A.sign, B.sign), A.e + B.e + If(q, E(0), E(1)), f

def mul_strict(c):
    def sp(xs, o):
        A, B, s, e, f = mul_view(c, xs)
        return And(*[strict_enc(c, x, s, e, f) for x in o])
    return sp

def mul_hints(c):
    def h(xs):
        A, B, s, e, f = mul_view(c, xs)
        return view_hints(c, A, B) + [(s, None, None), (e, 2 * c.minexp, 2 * c.maxexp + 1), (f, None, None)]
    return h

def view_hints(c, *vs):
    return [(v.e, c.minexp, c.maxexp) for v in vs] + [(v.f, None, None) for v in vs] + [(v.sign, None, None) for v in vs]

def c09(cfgs):
    gs = []
    for c in cfgs:
        if not exact_cfg(c): continue
        two = [pv('a', c), pv('b', c)]
        t = tu(c, 'G_MUL')
        for fn in ('h_mul', 'h_muleq'):
            ab = mul_abs(c)
            if c.N > 16: ab = Sweep(ab.full, focus(c, 2), mul_strict(c), gen(c, 2), hints=mul_hints(c))
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, two, 1, ab.full, absn=ab, edge=edges(c, 2), what='product of %s' % c.describe(), timeout=120, weight=10 * c.N))
        def one(xs, o, c=c):
            a = xs[0]; top = V(c.TOP, c.N)
            z = If(c.special(a), c.nan_or(), V(0, c.N))
            return And(eqp(c, o[0], a), eqp(c, o[1], If(a == top, a, -a)), eqp(c, o[2], z))
        gs.append(Goal('%s.h_mulone' % c.name, t, 'h_mulone', [pv('a', c)], 3, one, edge=edges(c), what='products by 1, -1 and 0'))
    return gs

def div_special(c, a, b, reg):
    A, B = c.dec(a), c.dec(b)
    sg = A.sign != B.sign
    inf = (lambda s: c.inf(s)) if c.hasinf else (lambda s: c.nan_or())
    r = If(A.zero, V(0, c.N), reg)
    r = If(B.zero, If(A.zero, c.nan_or(), inf(A.sign)), r)
    if c.hasinf:
        r = If(B.inf, If(A.inf, c.nan_or(), V(0, c.N)), If(A.inf, c.inf(If(B.zero, A.sign, sg)), r))
    if c.hasnan: r = If(Or(A.nan, B.nan), c.nan_or(), r)
    return r

def div_abs(c, inv=False):
    def ab(xs):
        if inv:
            B = c.dec(xs[0])
            A = Num(F_, F_, F_, F_, E(0), V(1 << (B.mw - 1), B.mw))
            return A, B, V(1 << (c.N - 2), c.N), xs[0]
        return c.dec(xs[0]), c.dec(xs[1]), xs[0], xs[1]
    def operands(xs):
        A, B, a, b = ab(xs)
        reg = And(A.regular(), B.regular())
        if inv: reg = And(reg, B.m != A.m)
        return A.m, B.m, reg
    def spec2(xs, o, Q, k0, k1):
        A, B, a, b = ab(xs)
        d = ULT(A.m, B.m)
        # mantissa of k+1 bits
        k = max(k0, k1 - 1)
        q = zx(Q, k + 2) if Q.size() < k + 2 else Extract(k + 1, 0, Q)
        # value = Q/2^kd ; d: in [1/2,1) -> leading one at bit kd-1 ; otherwise at bit kd
        m = If(d, q << V(k - (k1 - 1), k + 2), q << V(k - k0, k + 2))
        m = Extract(k, 0, m)
        e = A.e - B.e - If(d, E(1), E(0))
        if inv:
            pw = B.m == A.m
            m = If(pw, V(1 << k, k + 1), m); e = If(pw, -B.e, e)
        r, _ = c.enc_mag(e, m)
        r = If(A.sign != B.sign, -r, r)
        return And(*[eqp(c, x, div_special(c, a, b, r)) for x in o])
    return Quotient(operands, spec2, c.FT)

def div_view(c, xs, inv=False):
    """(operands, sign, e, fraction on FT) of the quotient of two regular operands, laid out over twice the fraction type"""
    FT = c.FT
    B = FTView(c, c.dec(xs[0 if inv else 1])); mb = Extract(FT, 1, B.m)
    if inv:
        d, f = ug.wide_div(c, V(1 << (FT - 1), FT), mb)
        return [B], B.sign, If(d, -B.e - 1, -B.e), f
    A = FTView(c, c.dec(xs[0]))
    d, f = ug.wide_div(c, Extract(FT, 1, A.m), mb)
    return [A, B], Xor(A.sign, B.sign), If(d, A.e - B.e - 1, A.e - B.e), f

def div_strict(c, inv=False):
    def sp(xs, o):
        vs, s, e, f = div_view(c, xs, inv)
        return And(*[strict_enc(c, x, s, e, f) for x in o])
    return sp

def div_hints(c, inv=False):
    def h(xs):
        vs, s, e, f = div_view(c, xs, inv)
        lo, hi_ = (-c.maxexp - 1, -c.minexp) if inv else (c.minexp - c.maxexp - 1, c.maxexp - c.minexp)
        return view_hints(c, *vs) + [(s, None, None), (e, lo, hi_), (f, None, None)]
    return h

def inv_focus(c): return lambda xs: [c.dec(xs[0]).regular(), FTView(c, c.dec(xs[0])).f != 0]

def c10(cfgs):
    gs = []
    for c in cfgs:
        if not exact_cfg(c): continue
        two = [pv('a', c), pv('b', c)]
        t = tu(c, 'G_DIV')
        for fn in ('h_div', 'h_diveq'):
            ab = div_abs(c)
            if c.N > 16: ab = Sweep(ab.full, focus(c, 2), div_strict(c), gen(c, 2), hints=div_hints(c))
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, two, 1, ab.full, absn=ab, edge=edges(c, 2), what='quotient of %s' % c.describe(), timeout=120, weight=10 * c.N))
        def one(xs, o, c=c):
            a = xs[0]; top = V(c.TOP, c.N)
            n = c.dec(a)
            zr = If(n.nan, c.nan_or(), If(n.zero, c.nan_or(), V(0, c.N)))
            return And(eqp(c, o[0], a), eqp(c, o[1], If(a == top, a, -a)), eqp(c, o[2], zr))
        gs.append(Goal('%s.h_divone' % c.name, t, 'h_divone', [pv('a', c)], 3, one, edge=edges(c), what='quotients by 1, -1 and of 0', timeout=120))
    return gs

# ------------------------------------------------------------------ C11 inverse, half, twice
def c11(cfgs):
    gs = []
    for c in cfgs:
        if not exact_cfg(c): continue
        t = tu(c, 'G_INV')
        ab = div_abs(c, inv=True)
        if c.N > 16: ab = Sweep(ab.full, inv_focus(c), div_strict(c, True), gen(c, 1), hints=div_hints(c, True))
        gs.append(Goal('%s.h_inv' % c.name, t, 'h_inv', [pv('a', c)], 1, ab.full, absn=ab, edge=edges(c), what='inverse of %s' % c.describe(), timeout=120, weight=10 * c.N))
        eq3 = Sweep(lambda xs, o: And(o[0] == o[2], o[1] == o[2]), focus(c, 1), None, gen(c, 1))
        gs.append(Goal('%s.h_inv2' % c.name, t, 'h_inv2', [pv('a', c)], 3, eq3.full, absn=eq3, edge=edges(c), what='~x, inv(x) and x.inv() agree', timeout=120))
        for fn, dl in (('h_half', -1), ('h_twice', 1)):
            def sp(xs, o, c=c, dl=dl):
                n = c.dec(xs[0]); r, _ = c.enc_mag(n.e + dl, n.m)
                return eqp(c, o[0], If(n.regular(), If(n.sign, -r, r), xs[0]))
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, [pv('a', c)], 1, sp, edge=edges(c), what='%s of %s' % (fn[2:], c.describe())))
    return gs
