"""Goals over Unpacked<FT,ET> (the soft float in unpacked form): arithmetic, IEEE formats, fixed point."""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, ZeroExt, SignExt, ULT, ULE, UGT, UGE, Implies
from oracle import *
from vc import TU, Goal, Products, Quotient, Sweep

class UC:
    """Unpacked<uint FT, int ET>; lim: bound on the magnitude of the exponents of the operands"""
    def __init__(self, FT, ET, lim=None):
        self.FT, self.ET = FT, ET
        self.lim = lim if lim is not None else (1 << 13) - 1 if ET == 16 else (1 << 20)
        self.name = 'U%d_%d' % (FT, ET)
        self.eb = min(ET, EW)
    def describe(self): return 'Unpacked<uint%d_t,int%d_t>' % (self.FT, self.ET)
    def defines(self): return ['-DHFT=uint%d_t' % self.FT, '-DHET=int%d_t' % self.ET]

UQ = [UC(8, 16), UC(16, 16), UC(16, 32), UC(32, 32), UC(64, 32), UC(64, 64)]
UM = [UC(8, 32), UC(8, 64), UC(32, 64), UC(16, 64)]

def describe(tier): return [c.describe() + ', operand exponents within +-%d' % c.lim for c in UQ + (UM if tier == 'thorough' else [])]

def tu(c, *groups, **kw): return TU('unpacked.cpp', c.defines() + list(kw.pop('defs', [])) + ['-D' + g for g in groups], **kw)

def ins(c, k):
    s = 'ab'[k]
    return [('type' + s, 2, 'u'), ('sign' + s, 1, 'u'), ('exp' + s, c.eb, 's'), ('frac' + s, c.FT, 'u')]

class UN:
    """operand k of the inputs"""
    def __init__(self, c, xs, k=0):
        t, s, e, f = xs[4 * k:4 * k + 4]
        self.reg, self.inf, self.nan, self.zero = t == 0, t == 1, t == 2, t == 3
        self.sign = s == 1
        self.e = sx(e, EW); self.f = f
        self.m = Concat(V(1, 1), f)
        self.t = t

def pre(c, n, drop=0):
    """operands with exponents in range; the `drop` lowest bits of the fractions are zero"""
    def f(xs):
        cs = []
        for k in range(n):
            u = UN(c, xs, k)
            cs += [u.e >= E(-c.lim), u.e <= E(c.lim)]
            if drop: cs.append(Extract(drop - 1, 0, u.f) == 0)
        return And(*cs)
    return f

def bo(o, c): return o == If(c, V(1, 64), V(0, 64))
REG, INF, NAN, ZERO = (V(i, 64) for i in range(4))
def is_reg(o, sign, e, f): return And(o[0] == REG, bo(o[1], sign), o[2] == sx(e, 64), o[3] == zx(f, 64))
def is_inf(o, sign): return And(o[0] == INF, bo(o[1], sign))
def is_nan(o): return o[0] == NAN
def is_zero(o): return o[0] == ZERO
def same(o, p):
    """the same unpacked value"""
    return And(o[0] == p[0], Implies(Or(o[0] == REG, o[0] == INF), o[1] == p[1]), Implies(o[0] == REG, And(o[2] == p[2], o[3] == p[3])))

def uadd_ref(c, a, b):
    """a, b regular with FT-2 bit fractions. returns list of (allowed, zero, sign, e, fraction)"""
    FT = c.FT
    w = FT - 1
    ma, mb = hi(a.m, w), hi(b.m, w)
    swap = a.e < b.e
    eL = If(swap, b.e, a.e)
    W = w + 1
    big = max(W, EW)
    def align(m, go, d):
        """shifted right by d when `go`; and whether something was lost"""
        m = zx(m, W)
        far = UGE(d, E(W))
        s = If(far, V(0, W), Extract(W - 1, 0, LShR(zx(m, big), zx(d, big))))
        lost = Or(far, Extract(W - 1, 0, zx(s, big) << zx(d, big)) != m)
        return If(go, s, m), And(go, lost)
    A, la = align(ma, swap, b.e - a.e)
    B, lb = align(mb, Not(swap), a.e - b.e)
    lost = Or(la, lb)
    sub = Xor(a.sign, b.sign)
    gt = UGT(A, B)
    r = If(sub, If(gt, A - B, B - A), A + B)
    sign = If(And(sub, Not(gt)), b.sign, a.sign)
    def norm(r):
        cnt, nm = clz_norm(r)
        fr = Extract(W - 2, 0, nm)           # without the leading one, W-1 = FT-1 bits
        return r == 0, eL + E(1) - cnt, hi(fr, FT)
    z, e, f = norm(r)
    z1, e1, f1 = norm(r - 1)
    return [(T, z, sign, e, f), (And(sub, lost, r != 1), z1, sign, e1, f1)], sub, lost

def add_spec(c, strict=False):
    def sp(xs, o):
        a, b = UN(c, xs, 0), UN(c, xs, 1)
        alts, sub, lost = uadd_ref(c, a, b)
        if strict: alts = alts[:1]
        oks = [And(al, If(z, is_zero(o), is_reg(o, s, e, f))) for al, z, s, e, f in alts]
        xa = [z3.ZeroExt(62, a.t), None]
        def arg(u, x): return And(o[0] == zx(u.t, 64), Implies(Or(u.reg, u.inf), bo(o[1], u.sign)), Implies(u.reg, And(o[2] == sx(u.e, 64), o[3] == zx(u.f, 64))))
        return If(Or(a.nan, b.nan), is_nan(o), If(And(a.reg, b.reg), Or(*oks), If(And(a.inf, b.inf), If(a.sign == b.sign, is_inf(o, a.sign), is_nan(o)),
               If(Or(b.zero, a.inf), arg(a, 0), arg(b, 1)))))
    return sp

def gen2(c, n=2, drop=2):
    def g(rng):
        v = []; e0 = rng.randrange(-c.lim // 2, c.lim // 2)
        M = (1 << c.FT) - 1
        for k in range(n):
            f = rng.getrandbits(c.FT) >> rng.choice([0, 0, rng.randrange(c.FT)])
            if rng.random() < .2: f = M ^ f
            if rng.random() < .1: f = 0
            e = e0 + rng.choice([0, 0, 1, -1, rng.randrange(-c.FT - 5, c.FT + 6), rng.randrange(-100, 100)])
            v += [0, rng.getrandbits(1), e & ((1 << c.eb) - 1), (f & M) >> drop << drop]
        return v
    return g
def focus(n):
    return lambda xs: [xs[4 * k] == 0 for k in range(n)]

def trunc_ok(o, c, sign, e, m, keep):
    """o is the regular number (sign, e, m) cut somewhere at or after `keep` fraction bits"""
    fr = hi(Extract(m.size() - 2, 0, m), c.FT)
    of = Extract(c.FT - 1, 0, o[3])
    return And(o[0] == REG, bo(o[1], sign), o[2] == sx(e, 64), Extract(63, c.FT, o[3]) == 0 if c.FT < 64 else z3.BoolVal(True),
               Extract(c.FT - 1, c.FT - keep, of) == Extract(c.FT - 1, c.FT - keep, fr), ULE(of, fr))

def mul_special(o, a, b, regular):
    sg = Xor(a.sign, b.sign)
    return If(Or(a.nan, b.nan), is_nan(o), If(And(a.reg, b.reg), regular, If(Or(a.inf, b.inf), If(Or(a.zero, b.zero), is_nan(o), is_inf(o, sg)), is_zero(o))))

def mul_abs(c):
    def operands(xs):
        a, b = UN(c, xs, 0), UN(c, xs, 1)
        return [(Extract(c.FT, 1, a.m), Extract(c.FT, 1, b.m), And(a.reg, b.reg))]
    def spec2(xs, o, ps):
        a, b = UN(c, xs, 0), UN(c, xs, 1)
        e, m = prod_mant(ps[0], a.e, b.e)
        return mul_special(o, a, b, trunc_ok(o, c, Xor(a.sign, b.sign), e, m, c.FT - 2))
    return Products(operands, spec2)

def div_abs(c, inv=False):
    def ab(xs):
        if inv:
            class One: pass
            a = One(); a.reg, a.inf, a.nan, a.zero, a.sign, a.e = T, F_, F_, F_, F_, E(0)
            a.m = V(1 << c.FT, c.FT + 1); a.f = V(0, c.FT)
            return a, UN(c, xs, 0)
        return UN(c, xs, 0), UN(c, xs, 1)
    def mant(u): return Extract(c.FT, 2, u.m)
    def operands(xs):
        a, b = ab(xs)
        reg = And(a.reg, b.reg)
        if inv: reg = And(reg, b.f != 0)
        return mant(a), mant(b), reg
    def spec2(xs, o, Q, k0, k1):
        a, b = ab(xs)
        ma, mb = mant(a), mant(b)
        d = ULT(ma, mb)
        k = max(k0, k1 - 1)
        q = zx(Q, k + 2) if Q.size() < k + 2 else Extract(k + 1, 0, Q)
        m = Extract(k, 0, If(d, q << V(k - (k1 - 1), k + 2), q << V(k - k0, k + 2)))
        e = a.e - b.e - If(d, E(1), E(0))
        if inv:
            pw = b.f == 0
            m = If(pw, V(1 << k, k + 1), m); e = If(pw, -b.e, e)
        regular = trunc_ok(o, c, Xor(a.sign, b.sign), e, m, c.FT - 2)
        if inv: return If(b.nan, is_nan(o), If(b.inf, is_zero(o), If(b.zero, o[0] == INF, regular)))
        return If(Or(a.nan, b.nan), is_nan(o), If(And(a.reg, b.reg), regular,
               If(Or(And(a.zero, b.zero), And(a.inf, b.inf)), is_nan(o), If(Or(a.zero, b.inf), is_zero(o), is_inf(o, If(b.zero, a.sign, Xor(a.sign, b.sign)))))))
    return Quotient(operands, spec2, c.FT)

def wide_div(c, ma, mb):
    """mantissas of FT bits -> (less, fraction of FT bits of the quotient), laid out over twice the width"""
    FT = c.FT
    d = ULT(ma, mb)
    y = If(d, LShR(mb, 1), mb)
    q = z3.UDiv(Concat(ma, V(0, FT)), zx(y, 2 * FT))
    return d, Extract(FT - 1, 0, q)

def div_strict(c, inv=False):
    def sp(xs, o):
        if inv:
            b = UN(c, xs, 0); mb = Extract(c.FT, 1, b.m)
            d, f = wide_div(c, V(1 << (c.FT - 1), c.FT), mb)
            pw = b.f == 0
            return And(b.reg, is_reg(o, b.sign, If(pw, -b.e, -b.e - 1), If(pw, V(0, c.FT), f)))
        a, b = UN(c, xs, 0), UN(c, xs, 1)
        d, f = wide_div(c, Extract(c.FT, 1, a.m), Extract(c.FT, 1, b.m))
        return And(a.reg, b.reg, is_reg(o, Xor(a.sign, b.sign), If(d, a.e - b.e - 1, a.e - b.e), f))
    return sp

EDGE_E = (0, 1, -1, 5, -5)
def edges(c, n):
    fs = [0, 1 << (c.FT - 1), ((1 << c.FT) - 1) & ~3, 4, 3 << (c.FT - 2)]
    base = [[t, s, e & ((1 << c.eb) - 1), f] for t in range(4) for s in (0, 1) for e, f in ((0, fs[0]), (3, fs[1]), (-7, fs[2]), (1, fs[3]))]
    if n == 1: return base
    return [base[i] + base[(i * 5 + 3 * j) % len(base)] for i in range(len(base)) for j in range(3)]

def c14(tier, d=None):
    gs = []
    for c in UQ + (UM if tier == 'thorough' else []):
        t = tu(c, 'G_ARITH')
        def g(fn, n, nout, spec, drop=0, absn=None, what='', timeout=120, edge=True, p=None, **kw):
            gs.append(Goal('%s.%s' % (c.name, fn), t, fn, sum([ins(c, k) for k in range(n)], []), nout, spec, pre=p or pre(c, n, drop), absn=absn, edge=edges(c, n) if edge else None, what='%s of %s' % (what, c.describe()), timeout=timeout, weight=c.FT, **kw))
        sw = Sweep(add_spec(c), focus(2), add_spec(c, True), gen2(c))
        g('u_add', 2, 4, sw.full, 2, absn=sw, what='sum')
        sw = Sweep(lambda xs, o: same(o[:4], o[4:]), focus(2), None, gen2(c, 2, 0))
        g('u_addeq', 2, 8, sw.full, absn=sw, what='+= as +')
        def neg(xs): return list(xs[:5]) + [~xs[5]] + list(xs[6:])
        sp, st = add_spec(c), add_spec(c, True)
        sw = Sweep(lambda xs, o, sp=sp: And(sp(neg(xs), o[:4]), same(o[4:8], o[:4])), focus(2), lambda xs, o, st=st: And(st(neg(xs), o[:4]), same(o[4:8], o[:4])), gen2(c))
        g('u_sub', 2, 8, sw.full, 2, absn=sw, what='difference')
        ab = mul_abs(c); g('u_mul', 2, 4, ab.full, 1, absn=ab, what='product')
        sw = Sweep(div_abs(c).full, focus(2), div_strict(c), gen2(c)); g('u_div', 2, 4, sw.full, 2, absn=sw, what='quotient')
        sw = Sweep(div_abs(c, True).full, lambda xs: [xs[0] == 0, xs[3] != 0], div_strict(c, True), gen2(c, 1)); g('u_inv', 1, 4, sw.full, 2, absn=sw, what='inverse')
        def ng(xs, o):
            a = UN(c, xs)
            return And(o[0] == zx(a.t, 64), Implies(Or(a.reg, a.inf), bo(o[1], Not(a.sign))), Implies(a.reg, And(o[2] == sx(a.e, 64), o[3] == zx(a.f, 64))))
        g('u_neg', 1, 4, ng, what='opposite')
        def no(xs, o, c=c):
            a = UN(c, xs)
            cnt, nm = clz_norm(a.f)
            return If(a.f == 0, is_zero(o), is_reg(o, a.sign, a.e - cnt, nm << 1))
        g('u_norm', 1, 4, no, what='normalisation', p=lambda xs, c=c: And(xs[0] == 0, pre(c, 1)(xs)), edge=False)
        def eq(xs, o, c=c):
            a, b = UN(c, xs, 0), UN(c, xs, 1)
            e = And(Not(a.nan), a.t == b.t, a.sign == b.sign, Implies(a.reg, And(a.e == b.e, a.f == b.f)))
            return And(bo(o[0], e), bo(o[1], Not(e)))
        g('u_eq', 2, 2, eq, what='equality')
        def cl(xs, o, c=c):
            a = UN(c, xs)
            return And(bo(o[0], a.inf), bo(o[1], a.reg), bo(o[2], a.nan), bo(o[3], a.zero), bo(o[4], Not(a.sign)))
        g('u_class', 1, 5, cl, what='classification')
        def co(xs, o):
            return And(o[0] == INF, is_inf(o[4:8], F_), is_inf(o[8:12], T), is_nan(o[12:16]), is_reg(o[16:20], F_, E(0), V(0, 64)), is_zero(o[20:24]), is_reg(o[24:28], F_, E(0), V(0, 64)))
        g('u_const', 1, 28, co, what='constants')
    return gs

# ------------------------------------------------------------------ IEEE formats
FLOATS = [('f', SINGLE, 3), ('d', DOUBLE, 3), ('h', HALF, 1), ('8', Fmt('microfloat', 5, 2), 1)]
FROM_N = dict(f=5, d=4, h=2)
FROM_N['8'] = 1
def c15(tier, d=None):
    gs = []
    for c in UQ + (UM if tier == 'thorough' else []):
        t = tu(c, 'G_FLOAT')
        for s, fm, n in FLOATS:
            def fr(xs, o, c=c, fm=fm, s=s):
                n = fm.dec(xs[0])
                f = hi(Extract(n.mw - 2, 0, n.m), c.FT)
                r = []
                for i in range(FROM_N[s]):
                    p = o[4 * i:4 * i + 4]
                    r.append(If(n.nan, is_nan(p), If(n.inf, is_inf(p, n.sign), If(n.zero, is_zero(p), is_reg(p, n.sign, n.e, f)))))
                return And(*r)
            ed = [[0], [1 << (fm.w - 1)], [1], [((1 << fm.eb) - 1) << fm.fb], [(((1 << fm.eb) - 1) << fm.fb) | 1], [(1 << fm.w) - 1], [fm.bias << fm.fb], [((1 << fm.eb) - 2 << fm.fb) | ((1 << fm.fb) - 1)], [(1 << fm.fb) - 1], [((1 << (fm.eb + 1)) - 1) << fm.fb]]
            gs.append(Goal('%s.u_f%s' % (c.name, s), t, 'u_f' + s, [('x', fm.w, 'u')], 4 * FROM_N[s], fr, edge=ed, what='%s from %s' % (c.describe(), fm.name)))
            def to(xs, o, c=c, fm=fm, n=n):
                a = UN(c, xs)
                r = fm.enc_reg(a.sign, a.e, a.m)
                def one(x):
                    hiok = Extract(63, fm.w, x) == 0 if fm.w < 64 else z3.BoolVal(True)
                    y = Extract(fm.w - 1, 0, x)
                    return And(hiok, If(a.nan, fm.isnan(y), If(a.inf, And(fm.isinf(y), bit(y, fm.w - 1) == a.sign), If(a.zero, y == 0, y == r))))
                return And(*[one(x) for x in o])
            gs.append(Goal('%s.u_t%s' % (c.name, s), t, 'u_t' + s, ins(c, 0), n, to, pre=pre(c, 1), edge=edges(c, 1), what='%s to %s' % (c.describe(), fm.name)))
        for s, fm in (('f', SINGLE), ('d', DOUBLE)):
            if c.FT < fm.fb: continue
            def rt(xs, o, fm=fm):
                x = xs[0]; y = Extract(fm.w - 1, 0, o[0])
                return If(fm.isnan(x), fm.isnan(y), y == If(Extract(fm.w - 2, 0, x) == 0, V(0, fm.w), x))
            gs.append(Goal('%s.u_rt%s' % (c.name, s), t, 'u_rt' + s, [('x', fm.w, 'u')], 1, rt, what='%s through %s and back' % (fm.name, c.describe())))
    return gs

# ------------------------------------------------------------------ fixed point
FX = [(8, 0), (8, 3), (8, 7), (8, 8), (16, 0), (16, 8), (16, 15), (32, 0), (32, 16), (32, 31), (64, 0), (64, 32), (64, 63)]
def c16(tier, d=None):
    gs = []
    for c in UQ + (UM if tier == 'thorough' else []):
        for b, f in FX:
            if tier == 'quick' and not (c.FT >= b or b == 32) : continue
            defs = ['-DFXT=int%d_t' % b, '-DFXB=%d' % b, '-DFXF=%d' % f]
            t = tu(c, 'G_FIXED', defs=defs)
            nm = '%s.fx%d_%d' % (c.name, b, f)
            ed = [[0], [1], [1 << (b - 1)], [(1 << (b - 1)) - 1], [(1 << b) - 1], [2], [3]]
            def fr(xs, o, c=c, b=b, f=f, n=2):
                x = xs[0]; neg = bit(x, b - 1); mg = If(neg, -x, x)
                cnt, nmz = clz_norm(mg)
                e = E(b - 1 - f) - cnt
                fra = hi(Extract(b - 2, 0, nmz), c.FT)
                return And(*[If(x == 0, is_zero(o[4 * i:4 * i + 4]), is_reg(o[4 * i:4 * i + 4], neg, e, fra)) for i in range(n)])
            gs.append(Goal(nm + '.u_fromfx', t, 'u_fromfx', [('x', b, 'u')], 8, fr, edge=ed, what='%s from fixed point %d.%d' % (c.describe(), b - f, f)))
            def to(xs, o, c=c, b=b, f=f):
                a = UN(c, xs)
                up = a.e >= E(b - f - 1)
                top = hi(a.m, b - 1) if b > 1 else None
                sh = E(b - 2 - f) - a.e
                W = max(b - 1, EW)
                mag = If(a.e < E(-f), V(0, 64), zx(LShR(zx(top, W), zx(sh, W)), 64))
                lo, hi_ = V(-(1 << (b - 1)), 64), V((1 << (b - 1)) - 1, 64)
                return o[0] == If(a.reg, If(up, If(a.sign, lo, hi_), If(a.sign, -mag, mag)), V(0, 64))
            def cases(b=b, f=f, c=c):
                lo, hi_ = -f, b - f - 2
                cs = [('range', lambda xs: Or(UN(c, xs).e < E(lo), UN(c, xs).e > E(hi_), Not(UN(c, xs).reg)))]
                for k in range(lo, hi_ + 1): cs.append(('exp %d' % k, lambda xs, k=k: And(UN(c, xs).reg, UN(c, xs).e == E(k))))
                return cs if b >= 32 else None
            gs.append(Goal(nm + '.u_tofx', t, 'u_tofx', ins(c, 0), 1, to, pre=pre(c, 1), cases=cases(), edge=edges(c, 1), what='%s to fixed point %d.%d' % (c.describe(), b - f, f)))
            if c.FT >= b - 1:
                gs.append(Goal(nm + '.u_rtfx', t, 'u_rtfx', [('x', b, 's')], 1, lambda xs, o, b=b: o[0] == (sx(xs[0], 64)), edge=ed, what='fixed point %d.%d through %s and back' % (b - f, f, c.describe())))
            if (b, f) == (32, 0):
                gs.append(Goal(c.name + '.u_fromint', t, 'u_fromint', [('x', 32, 'u')], 8, fr, edge=ed, what='%s from int' % c.describe()))
                gs.append(Goal(c.name + '.u_toint', t, 'u_toint', ins(c, 0), 1, to, pre=pre(c, 1), cases=cases(), edge=edges(c, 1), what='%s to int' % c.describe()))
    return gs
