"""Further goals over Posit<>: special values, fused operations, constants and limits, unit range helpers, analysis, algebraic laws"""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, ZeroExt, SignExt, LShR, ULT, ULE, UGT, UGE, Implies
from oracle import *
from vc import TU, Goal, Products, Quotient, Sweep, Part
from posit_goals import *
import posit_goals as pg
import unpacked_goals as ug

# ------------------------------------------------------------------ C12 special values and closure
def c12(cfgs): return sum([c12_one(c) for c in cfgs], [])
def c12_one(c):
    gs = []
    if True:
        two, three = [pv('a', c), pv('b', c)], [pv('a', c), pv('b', c), pv('c', c)]
        def fin(c, r):                          # result pattern of an operation on finite operands
            return Not(c.special(r))
        def g(fn, grp, ins, nout, spec, pre, what, **kw):
            gs.append(Goal('%s.%s%s' % (c.name, fn, kw.pop('suf', '')), tu(c, grp), fn, ins, nout, spec, pre=pre, edge=edges(c, len(ins)), what='%s, %s' % (what, c.describe()), weight=c.N, timeout=100, **kw))
        anyspec = lambda xs, c=c: Or(*[Or(c.special(x), x == 0) for x in xs])
        finite = lambda xs, c=c: Not(Or(*[c.special(x) for x in xs]))
        nz = lambda xs, c=c: And(finite(xs), *[x != 0 for x in xs])
        isnan = lambda r, c=c: r == V(c.TOP, c.N)
        # at least one operand zero, infinity or NaN: the algebra of the special values
        for fn, neg in (('h_add', False), ('h_sub', True)):
            def sp(xs, o, c=c, neg=neg):
                R, v = ret(c, o[0]); b = xs[1]
                if neg: b = If(b == V(c.TOP, c.N), b, -b)
                return And(v, R == add_special(c, xs[0], b, V(0, c.N)))
            g(fn, 'G_ADD', two, 1, sp, anyspec, 'special operands')
            def cl(xs, o, c=c, neg=neg):
                R, v = ret(c, o[0])
                opp = xs[0] == (xs[1] if neg else -xs[1])
                return And(v, fin(c, R), Implies(And(xs[0] != 0, xs[1] != 0), (R == 0) == opp))
            if exact_cfg(c): g(fn, 'G_ADD', two, 1, cl, finite, 'finite operands give a finite result, zero only for opposites', suf='.finite')
        def spm(xs, o, c=c): return And(*[eqp(c, x, mul_special(c, xs[0], xs[1], V(0, c.N))) for x in o])
        g('h_mul', 'G_MUL', two, 1, spm, anyspec, 'special operands')
        def clm(xs, o, c=c):
            R, v = ret(c, o[0]); return And(v, fin(c, R), R != 0, bit(R, c.N - 1) == z3.Xor(bit(xs[0], c.N - 1), bit(xs[1], c.N - 1)))
        g('h_mul', 'G_MUL', two, 1, clm, nz, 'finite non-zero operands give a finite non-zero result with the sign of the product', suf='.finite')
        def spd(xs, o, c=c): return eqp(c, o[0], div_special(c, xs[0], xs[1], V(0, c.N)))
        g('h_div', 'G_DIV', two, 1, spd, anyspec, 'special operands')
        g('h_div', 'G_DIV', two, 1, clm, nz, 'finite non-zero operands give a finite non-zero result with the sign of the quotient', suf='.finite')
        def spi(xs, o, c=c): return eqp(c, o[0], div_special(c, V(1 << (c.N - 2), c.N), xs[0], V(0, c.N)))
        g('h_inv', 'G_INV', [pv('a', c)], 1, spi, anyspec, 'special operand')
        def cli(xs, o, c=c):
            R, v = ret(c, o[0]); return And(v, fin(c, R), R != 0, bit(R, c.N - 1) == bit(xs[0], c.N - 1))
        g('h_inv', 'G_INV', [pv('a', c)], 1, cli, nz, 'finite non-zero operand', suf='.finite')
        for fn in ('h_half', 'h_twice'):
            g(fn, 'G_INV', [pv('a', c)], 1, lambda xs, o, c=c: eqp(c, o[0], xs[0]), anyspec, 'special operand')
            g(fn, 'G_INV', [pv('a', c)], 1, cli, nz, 'finite non-zero operand', suf='.finite')
        def spf(xs, o, c=c):
            return eqp(c, o[0], fma_special(c, xs[0], xs[1], xs[2], None))
        g('h_fma', 'G_FMA', three, 1, spf, lambda xs, c=c: Or(*[c.special(x) for x in xs]), 'special operand')
        g('h_fma', 'G_FMA', three, 1, lambda xs, o, c=c: And(ret(c, o[0])[1], fin(c, ret(c, o[0])[0])), finite, 'finite operands give a finite result', suf='.finite')
    return gs

# ------------------------------------------------------------------ C13 fused operations
def fma_special(c, a, b, cc, reg):
    """fused multiply-add; reg: result when all three are regular or zero"""
    A, B, C_ = c.dec(a), c.dec(b), c.dec(cc)
    ps = Xor(A.sign, B.sign)
    pinf = Or(A.inf, B.inf); pnan = Or(A.nan, B.nan, And(A.inf, B.zero), And(A.zero, B.inf))
    opp = And(pinf, C_.inf, ps != C_.sign) if c.spec == 'WithNanInf' else F_
    if not c.hasinf: r = V(0, c.N) if reg is None else reg
    else: r = If(pinf, c.inf(ps), If(C_.inf, cc, V(0, c.N) if reg is None else reg))
    return If(Or(pnan, C_.nan, opp), c.nan_or(), r)

def specials(c):
    r = [c.TOP]
    if c.spec == 'WithNanInf': r += [c.TOP - 1, c.TOP + 1]
    return r

def fused_fits(c): return 2 * c.F + 1 <= c.FT - 2

def prod_num(c, A, B):
    e, m = prod_mant(zx(A.m, 2 * A.mw) * zx(B.m, 2 * B.mw), A.e, B.e)
    return Num(F_, F_, F_, Xor(A.sign, B.sign), e, m)

def sum_ok(c, P, Q, R):
    """R: N bit result for P+Q, both regular"""
    z, s, e, m, d, sub = exact_add(P, Q)
    spare = c.FT - 2 - (2 * c.F + 1)
    return faithful(c, R, z, s, e, m, And(sub, d > E(spare)))

class Obj: pass
def as_ft(c, sign, e, f):
    o = Obj(); o.sign, o.e, o.f = sign, e, f; o.m = Concat(V(1, 1), f); return o

class Fused:
    """layout on the fraction type of a*b+c (k=3) or a*b+-c*d (k=4)"""
    def __init__(self, c, k, neg=False, zero=False, order=None):
        self.c, self.k, self.neg = c, k, neg
    def views(self, xs):
        c = self.c
        A, B, s, e, f = mul_view(c, xs[:2]); self.ops = [A, B]
        p = as_ft(c, s, e, f)
        if self.k == 3: q = FTView(c, c.dec(xs[2])); self.ops.append(q)
        else:
            C_, D, s1, e1, f1 = mul_view(c, xs[2:4]); self.ops += [C_, D]
            q = as_ft(c, Not(s1) if self.neg else s1, e1, f1)
        return p, q
    def ref(self, xs):
        p, q = self.views(xs)
        alts, sub, lost = ug.uadd_ref(self.c, p, q)
        _, z, s, e, f = alts[0]
        return p, q, z, s, e, f
    def regular(self, xs): return [self.c.dec(x).regular() for x in xs]
    def parts(self):
        c, k = self.c, self.k
        def sum_strict(xs, o):
            p, q, z, s, e, f = self.ref(xs)
            return And(*[If(z, x == 0, strict_enc(c, x, s, e, f)) for x in o])
        def hints(xs):
            p, q, z, s, e, f = self.ref(xs)
            lw = {8: 3, 16: 4, 32: 5, 64: 6}[c.FT]
            low = [(Extract(w - 1, 0, x), None, None) for x in [v.e for v in self.ops if hasattr(v, 'e')] + [p.e, q.e, p.e - q.e, q.e - p.e] for w in sorted({lw, 5, 6})]
            low += [(d, 2 * c.minexp - 2 * c.maxexp - 1, 2 * c.maxexp - 2 * c.minexp + 1) for d in (p.e - q.e, q.e - p.e)]
            return view_hints(c, *self.ops) + low + [(v.e, 2 * c.minexp, 2 * c.maxexp + 1) for v in (p, q)] + [(v.f, None, None) for v in (p, q)] + [(v.sign, None, None) for v in (p, q)] + \
                [(s, None, None), (e, 2 * c.minexp - 2 * c.FT, 2 * c.maxexp + 2), (f, None, None)]
        def gz(rng):
            """opposite products"""
            v = gen(c, k)(rng)
            M = (1 << c.N) - 1
            if k == 4: v[2:4] = [v[1], v[0] if self.neg else -v[0] & M] if rng.random() < .5 else [v[0], v[1] if self.neg else -v[1] & M]
            else:
                one = 1 << (c.N - 2); j = rng.randrange(2)
                v[j] = rng.choice([one, -one & M]); v[2] = (-v[1 - j] if v[j] == one else v[1 - j]) & M
            return v
        def near(rng):
            """near opposite products, down to the last bits of the product"""
            M = (1 << c.N) - 1; one = 1 << (c.N - 2)
            def sm(): return rng.choice([0, 0, 1, 2, 3, 1 << rng.randrange(c.N - 2), 1 << rng.randrange(c.N - 2)]) * rng.choice([1, -1])
            v = [one + sm() for _ in range(k)]
            if rng.random() < .4 and c.N > 5:            # (1+s)(1-s)-1
                s = rng.choice([1, 2, 3, 4, 5, 1 << rng.randrange(c.N - 4)]); v = [one + s, one - 2 * s] + [one] * (k - 2)
                if rng.random() < .5: v[:2] = v[1::-1]
            elif rng.random() < .5 and k == 4: v[2:] = [v[0] + rng.choice([0, 0, 1, -1]), v[1] + rng.choice([0, 1, -1])]
            if not (self.neg and k == 4): v[-1] = -v[-1]
            if rng.random() < .3:
                j = rng.randrange(k); v[j] = -v[j]; v[-1 if j < 2 else 0] *= -1
            return [x & M for x in v]
        def mix(rng):
            t = rng.random()
            if t < .15:                              # near the ends of the range
                base = rng.choice([[1], [c.MAXPOS + 1], [1, c.MAXPOS + 1, 1 << (c.N - 2)]])
                return [rng.choice([1, 1, -1]) * (rng.choice(base) + rng.choice([0, 0, 1, 2, -1, -2, 5])) & (1 << c.N) - 1 for _ in range(k)]
            return gz(rng) if t < .3 else near(rng) if t < .55 else gen(c, k)(rng)
        ps = [Part('regular operands', self.regular, sum_strict, mix, hints)]
        for i in range(k):
            for v in specials(c): ps.append(Part('operand %d special' % i, lambda xs, i=i, v=v: [xs[i] == V(v, c.N)], direct=True))
        # one term zero: the other product
        def one_zero(i):
            def focus(xs):
                if k == 3: return [c.dec(xs[0]).regular(), c.dec(xs[1]).regular(), xs[2] == 0]
                a, b = (xs[:2], xs[2:]) if i == 0 else (xs[2:], xs[:2])
                return [c.dec(x).regular() for x in a] + [Or(b[0] == 0, b[1] == 0), Not(c.special(b[0])), Not(c.special(b[1]))]
            def strict(xs, o):
                p, q, z, s, e, f = self.ref(xs)
                u = p if i == 0 else q
                return And(*[strict_enc(c, x, u.sign, u.e, u.f) for x in o])
            def g(rng):
                v = gen(c, k)(rng)
                if k == 3: v[2] = 0
                else: v[(2 if i == 0 else 0) + rng.randrange(2)] = 0
                return v
            return Part('term %d zero' % (1 - i), focus, strict, g, hints)
        ps.append(one_zero(0))
        if k == 4: ps.append(one_zero(1))
        return ps

def fma_spec(c):
    def sp(xs, o):
        a, b, cc = xs
        A, B, C_ = c.dec(a), c.dec(b), c.dec(cc)
        P = prod_num(c, A, B)
        allreg = And(A.regular(), B.regular(), C_.regular())
        pm, _ = c.enc_mag(P.e, P.m)
        preg = If(P.sign, -pm, pm)
        pz = Or(A.zero, B.zero)
        oks = []
        for x in o:
            R, v = ret(c, x)
            oks.append(And(v, If(allreg, sum_ok(c, P, C_, R), R == fma_special(c, a, b, cc, If(pz, cc, preg)))))
        return And(*oks)
    return sp

def dot_spec(c, neg=False):
    def sp(xs, o):
        ns = [c.dec(x) for x in xs]
        P, Q = prod_num(c, ns[0], ns[1]), prod_num(c, ns[2], ns[3])
        if neg: Q.sign = Not(Q.sign)
        allreg = And(*[n.regular() for n in ns])
        def enc(P): m, _ = c.enc_mag(P.e, P.m); return If(P.sign, -m, m)
        pz, qz = Or(ns[0].zero, ns[1].zero), Or(ns[2].zero, ns[3].zero)
        pinf, qinf = Or(ns[0].inf, ns[1].inf), Or(ns[2].inf, ns[3].inf)
        nan = Or(*[n.nan for n in ns], And(pinf, pz), And(qinf, qz))
        if c.spec == 'WithNanInf': nan = Or(nan, And(pinf, qinf, P.sign != Q.sign))
        sp_ = If(pz, If(qz, V(0, c.N), enc(Q)), enc(P))
        if c.hasinf: sp_ = If(pinf, c.inf(P.sign), If(qinf, c.inf(Q.sign), sp_))
        oks = []
        for x in o:
            R, v = ret(c, x)
            oks.append(And(v, If(And(allreg, Not(nan)), sum_ok(c, P, Q, R), R == If(nan, c.nan_or(), sp_))))
        return And(*oks)
    return sp

def c13(cfgs): return sum([c13_one(c) for c in cfgs], [])
def c13_one(c):
    gs = []
    if True:
        t, tp = tu(c, 'G_FMA'), tu(c, 'G_POSITMUL')
        three = [pv(n, c) for n in 'abc']; four = [pv(n, c) for n in 'abcd']; six = [pv(n, c) for n in 'abcdef']
        big = c.N > 16
        def g(tt, fn, ins, nout, k, what, **kw):
            gs.append(Goal('%s.%s' % (c.name, fn), tt, fn, ins, nout, k.full if hasattr(k, 'full') else k, absn=k if hasattr(k, 'full') else None, edge=edges(c, len(ins)), what='%s, %s' % (what, c.describe()), timeout=120, weight=10 * c.N, **kw))
        small = c.N <= 5 or c.name == 'P8_8_0_16_WithNanInf'
        def slow(): gs[-1].slow = True
        if fused_fits(c):
            def fm(outs=1): return Sweep(fma_spec(c), parts=Fused(c, 3).parts(), budget=60)
            g(t, 'h_fma', three, 1, fm(), 'fused multiply-add')
            if c.N > 16 or c.name in ('P16_9_3_16_WithInf', 'P32_8_0_32_WithInf'): slow()
            g(t, 'h_dot2f', three, 1, fm(), 'dot product of two pairs, one with a factor 1')
            if c.N > 5: slow()
            g(tp, 'h_pm_fma', three, 2, fm(2), 'a*b+c and c+a*b with fused products')
            if not small and c.name != 'P32_16_1_32_WithNan': slow()
            g(t, 'h_dot2', four, 1, Sweep(dot_spec(c), parts=Fused(c, 4).parts(), budget=60), 'dot product of two pairs')
            if not small and c.name != 'P16_16_1_32_WithNan': slow()
            g(tp, 'h_pm_dot', four, 1, Sweep(dot_spec(c), parts=Fused(c, 4).parts(), budget=60), 'a*b+c*d with fused products')
            if not small: slow()
            g(tp, 'h_pm_dots', four, 1, Sweep(dot_spec(c, True), parts=Fused(c, 4, True).parts(), budget=60), 'a*b-c*d with fused products')
            if not small: slow()
        if exact_cfg(c):
            two = three[:2]
            for tt, fn in ((t, 'h_dot1'), (tp, 'h_pm_mul')):
                ab = mul_abs(c)
                if big: ab = Sweep(ab.full, focus(c, 2), mul_strict(c), gen(c, 2), hints=mul_hints(c))
                g(tt, fn, two, 1, ab, 'single product')
        g(t, 'h_dot0', three[:1], 2, lambda xs, o: And(o[0] == 0, o[1] == 0), 'empty dot product is zero')
        g(t, 'h_dot3', six, 2, Sweep(lambda xs, o: o[0] == o[1], None, None, gen(c, 6)), 'dot product of three pairs accumulates the unpacked products in order')
        if c.N > 4: slow()
    return gs

def c13_range(cfgs):                      # for C22: a dot product reads every element of its ranges once and nothing behind them
    return [Goal('%s.h_dotit' % c.name, tu(c, 'G_FMA'), 'h_dotit', [pv(n, c) for n in 'abc'] + [('n', 2, 'u')], 2, lambda xs, o: z3.BoolVal(True), edge=[x + [n] for x in edges(c, 3)[:8] for n in range(4)],
                 what='dot product over guarded ranges, ' + c.describe(), timeout=120, weight=10 * c.N) for c in cfgs if c.N in (5, 8, 12, 16)]

# ------------------------------------------------------------------ C21 constants and limits
def c21(cfgs): return sum([c21_one(c) for c in cfgs], [])
def c21_one(c):
    gs = []
    if True:
        t = tu(c, 'G_CONST')
        P = lambda v: i64((v & (1 << c.N) - 1) - ((1 << c.N) if v >> (c.N - 1) & 1 else 0))
        def val(o, c, sign, e):                 # o is exactly +-2^e, by decoding it
            R, v = ret(c, o); n = c.dec(R)
            return And(v, n.regular(), n.sign == z3.BoolVal(sign), n.e == E(e), Extract(n.mw - 2, 0, n.m) == 0)
        def enc2(e, c=c):                       # truncated power of two
            r, _ = c.enc_mag(E(e), V(1, 1)); return r
        pinf = c.TOP - 1 if c.spec == 'WithNanInf' else c.TOP
        ninf = c.TOP + 1 if c.spec == 'WithNanInf' else c.TOP
        def co(xs, o, c=c, P=P, pinf=pinf, ninf=ninf):
            top = c.TOP
            r = [o[0] == 0, val(o[1], c, False, 0), val(o[2], c, True, 0), eqp(c, o[3], enc2(1, c)), eqp(c, o[4], enc2(-1, c)), o[5] == P(c.MAXPOS), o[6] == 1, o[7] == P(-c.MAXPOS & (2 * top - 1)),
                 o[8] == P(top), o[9] == P(pinf), o[10] == P(pinf), o[11] == P(ninf), o[12] == P(pinf), o[13] == 0]
            return And(*r)
        gs.append(Goal('%s.h_const' % c.name, t, 'h_const', [('dummy', 8, 'u')], 14, co, what='named constants of %s' % c.describe()))
        def li(xs, o, c=c, P=P, pinf=pinf):
            top = c.TOP
            one = V(1 << (c.N - 2), c.N)
            R, v = ret(c, o[3])
            n, n1 = c.dec(R), c.dec(one + 1)
            # epsilon: the distance from one to its successor
            z, s, e, m, d, sub = exact_add(n1, Num(F_, F_, F_, T, E(0), V(1, 1)))
            eps, _ = c.enc_mag(e, m)
            r = [o[0] == 1, o[1] == P(c.MAXPOS), o[2] == P(-c.MAXPOS & (2 * top - 1)), o[4] == i64(c.minexp), o[5] == i64(c.maxexp),
                 bo(o[6], z3.BoolVal(c.hasinf)), bo(o[7], z3.BoolVal(c.hasnan)), o[8] == P(pinf), o[9] == P(top), o[10] == 1, o[11] == 1, o[12] == 0, o[13] == 0, o[14] == 2, o[15] == 1]
            if exact_cfg(c): r.append(And(v, R == eps))
            return And(*r)
        gs.append(Goal('%s.h_limits' % c.name, t, 'h_limits', [('dummy', 8, 'u')], 16, li, what='numeric_limits of %s' % c.describe()))
        def se(xs, o, c=c, P=P):
            a = xs[0]
            inf_hi = And(c.isinf(a), Not(bit(a, c.N - 1))); inf_lo = And(c.isinf(a), bit(a, c.N - 1))
            r = [bo(o[0], inf_hi), bo(o[1], inf_lo), o[2] == 0]
            if exact_cfg(c): r += [eqp(c, o[3], enc2(1, c))] + ([eqp(c, o[4], V(1 << (c.N - 2), c.N))] if c.maxexp >= 1 else [])
            return And(*r)
        gs.append(Goal('%s.h_constself' % c.name, t, 'h_constself', [pv('a', c)], 5, se, edge=edges(c), what='no finite posit beyond max/lowest or between zero and min; 1+1 is two, two times onehalf is one: %s' % c.describe()))
    return gs

# ------------------------------------------------------------------ C23 unit range
def c23(cfgs): return sum([c23_one(c) for c in cfgs], [])
def c23_one(c):
    gs = []
    if True:
        t = tu(c, 'G_UNIT')
        def sh(k):
            def sp(xs, o, c=c):
                b = xs[0] ^ V(c.TOP, c.N)
                return eqp(c, o[0], LShR(b, k))
            return sp
        one = [pv('a', c)]
        def g(fn, nout, spec, what, **kw): gs.append(Goal('%s.%s' % (c.name, fn), t, fn, one, nout, spec, edge=edges(c), what='%s of %s' % (what, c.describe()), timeout=100, weight=c.N, **kw))
        g('h_sig', 1, sh(2), 'pseudo sigmoid'); g('h_softp', 1, sh(1), 'pseudo softplus')
        def un(xs, o, c=c):
            n = c.dec(xs[0])
            return bo(o[0], Or(n.zero, And(n.regular(), Not(n.sign), Or(n.e < 0, And(n.e == 0, Extract(n.mw - 2, 0, n.m) == 0)))))
        g('h_unit', 1, un, 'unit range test')
        unit = lambda xs, c=c: And(Not(bit(xs[0], c.N - 1)), ULE(xs[0], V(1 << (c.N - 2), c.N)))
        def om(xs, o, c=c):
            R, v = ret(c, o[0]); a = xs[0]
            sym = R == V(1 << (c.N - 2), c.N) - a
            if c.es != 0: return And(v, sym)
            # the exact 1-x
            n = c.dec(a)
            z, s, e, m, d, sub = exact_add(Num(F_, F_, F_, F_, E(0), V(1 << (n.mw - 1), n.mw)), Num(F_, F_, F_, T, n.e, n.m))
            t_, inex = c.enc_mag(e, m)
            return And(v, If(n.zero, R == V(1 << (c.N - 2), c.N), And(Not(s), If(z, R == 0, And(R == t_, Not(inex))))))
        g('h_urom', 1, om, '1-x on the unit range', pre=unit)
        if exact_cfg(c):
            def mulref(xs, o, c=c):
                a = xs[0]; b = V(1 << (c.N - 2), c.N) - a
                A, B = c.dec(a), c.dec(b)
                P = prod_num(c, A, B)
                t_, inex = c.enc_mag(P.e, P.m)
                r = If(Or(A.zero, B.zero), V(0, c.N), If(P.sign, -t_, t_))
                return And(eqp(c, o[0], r), eqp(c, o[1], r))
            def reg(xs, c=c): return [xs[0] != 0, xs[0] != V(1 << (c.N - 2), c.N)]
            def strict(xs, o, c=c): return mul_strict(c)([xs[0], V(1 << (c.N - 2), c.N) - xs[0]], o)
            def hints(xs, c=c): return mul_hints(c)([xs[0], V(1 << (c.N - 2), c.N) - xs[0]])
            def gn(rng, c=c): return [rng.getrandbits(c.N) % ((1 << (c.N - 2)) + 1)]
            k = Sweep(mulref, reg, strict, gn, hints=hints)
            g('h_urdelta', 2, mulref, 'x(1-x) on the unit range', pre=unit, absn=k)
    return gs

# ------------------------------------------------------------------ C24 analysis
def c24(cfgs): return sum([c24_one(c) for c in cfgs], [])
def c24_one(c):
    gs = []
    if True:
        t = tu(c, 'G_ANALYZE')
        def sp(xs, o, c=c):
            a = xs[0]; n = c.dec(a); N = c.N
            e, fr, k, run = c.mag_dec(Extract(N - 2, 0, c.mag(a)))
            rs = If(run + 1 > E(N - 1), E(N - 1), run + 1)
            es = If(E(N - 1) - rs < E(c.es), E(N - 1) - rs, E(c.es))
            fs = E(N - 1) - rs - es
            reg = n.regular()
            want = [k, None, rs, es, fs, e & E((1 << c.es) - 1), e]
            r = [bo(o[0], n.inf), bo(o[1], n.nan), Implies(Not(And(n.inf, z3.BoolVal(c.spec == 'WithInf'))), bo(o[3], And(Or(reg, n.inf), n.sign)))]
            for i, w in enumerate(want):
                if w is not None: r.append(o[2 + i] == If(reg, sx(w, 64), V(0, 64)))
            r.append(o[9] == If(reg, frac_out(c, n, c.FT), V(0, 64)))
            return And(*r)
        gs.append(Goal('%s.h_analyze' % c.name, t, 'h_analyze', [pv('a', c)], 10, sp, edge=edges(c), what='field analysis of %s' % c.describe()))
    return gs

# ------------------------------------------------------------------ C26 algebraic laws
LAWS_QUICK = ('P16_16_1_32_WithNan', 'P16_12_2_16_WithNan', 'P16_16_1_16_WithInf', 'P32_32_2_64_WithNan', 'P32_32_2_32_WithNanInf')
def c26(cfgs): return sum([c26_one(c) for c in cfgs], [])
def c26_one(c):
    gs = []
    if True:
        t = tu(c, 'G_LAWS')
        two = [pv('a', c), pv('b', c)]
        eq = lambda i, j: (lambda xs, o: o[i] == o[j])
        def g(fn, ins, nout, spec, what, **kw):
            k = Sweep(spec, None, None, gen(c, len(ins))) if c.N > 8 or c.H > 8 else None
            gs.append(Goal('%s.%s%s' % (c.name, fn, kw.pop('suf', '')), t, fn, ins, nout, spec, absn=k, edge=edges(c, len(ins)), what='%s, %s' % (what, c.describe()), timeout=100, weight=c.N, **kw))
        pairs = lambda xs, o: And(*[o[2 * i] == o[2 * i + 1] for i in range(len(o) // 2)])
        # the claim is symmetric: it suffices to look at |a| >= |b| (operands that are not regular are covered by C12)
        def ordered(strictly):
            def f(xs):
                A, B = c.dec(xs[0]), c.dec(xs[1])
                return And(A.regular(), B.regular(), A.e > B.e if strictly else And(A.e == B.e, UGE(A.m, B.m)))
            return f
        g('l_addcom', two, 2, pairs, 'a+b is b+a', pre=ordered(True), suf='.gt')
        g('l_addcom', two, 2, pairs, 'a+b is b+a', pre=ordered(False), suf='.eq')
        g('l_mulcom', two, 2, pairs, 'a*b is b*a')
        g('l_subadd', two, 2, pairs, 'a-b is a+(-b)')
        g('l_addneg', two, 2, pairs, '(-a)+(-b) is -(a+b)')
        g('l_mulneg', two, 4, pairs, '(-a)*b and a*(-b) are -(a*b)')
        g('l_divneg', two, 4, pairs, '(-a)/b and a/(-b) are -(a/b), b not zero', pre=lambda xs: xs[1] != 0)
        def selfs(xs, o, c=c):
            n = c.dec(xs[0]); one = V(1 << (c.N - 2), c.N)
            sp = c.special(xs[0])
            return And(Implies(Not(sp), eqp(c, o[0], V(0, c.N))), Implies(n.regular(), eqp(c, o[1], one)), Implies(c.isnan(xs[0]), And(eqp(c, o[0], xs[0]), eqp(c, o[1], xs[0]))))
        g('l_self', two[:1], 2, selfs, 'a-a is 0, a/a is 1')
        g('l_negneg', two[:1], 6, lambda xs, o: And(o[0] == o[1], o[2] == o[3], Implies(xs[0] != 0, o[4] == o[5])), '-(-a) is a, |-a| is |a|, 1/(-a) is -(1/a) unless a is zero')
    if (c.N > 8 or c.H > 16) and c.name not in LAWS_QUICK:
        for q in gs: q.slow = True
    return gs
