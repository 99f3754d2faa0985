"""Reference semantics of posits and IEEE formats over z3 bit-vectors, written from the definition of the formats
(regime/exponent/fraction; truncation toward zero; saturation), independent of the code in /repo.

A number is a Num: flags zero/nan/inf, sign, exponent e (signed, EW bits), mantissa m: an unsigned bit-vector of
`mw` bits whose top bit is the hidden 1 (value = m / 2^(mw-1) * 2^e).
"""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, ZeroExt, SignExt, LShR, ULT, ULE, UGT, UGE

EW = 24
T, F_ = z3.BoolVal(True), z3.BoolVal(False)

def E(n): return V(n, EW)
def any1(x): return x != V(0, x.size())
def zx(x, w): return x if x.size() == w else ZeroExt(w - x.size(), x) if w > x.size() else Extract(w - 1, 0, x)
def sx(x, w): return x if x.size() == w else SignExt(w - x.size(), x) if w > x.size() else Extract(w - 1, 0, x)
def bit(x, i): return Extract(i, i, x) == V(1, 1)
def hi(x, n):
    """top n bits, zero padded on the right when x is shorter"""
    w = x.size()
    if n <= w: return Extract(w - 1, w - n, x)
    return Concat(x, V(0, n - w))

def clz_norm(x):
    """(count of leading zeros as EW bits, x shifted left by it); for x==0 the count is >= width and the shift is 0"""
    w = x.size(); cnt = E(0)
    s = 1
    while s * 2 < w: s *= 2
    if s >= w: s = max(1, w // 2)
    steps = []
    while s >= 1: steps.append(s); s //= 2
    steps.append(1)
    for s in steps:
        if s > w - 1: continue
        z = Extract(w - 1, w - s, x) == V(0, s)
        cnt = cnt + If(z, E(s), E(0))
        x = If(z, x << V(s, w), x)
    return cnt, x

class Num:
    __slots__ = ('zero', 'nan', 'inf', 'sign', 'e', 'm')
    def __init__(self, zero=F_, nan=F_, inf=F_, sign=F_, e=None, m=None):
        self.zero, self.nan, self.inf, self.sign, self.e, self.m = zero, nan, inf, sign, e, m
    @property
    def mw(self): return self.m.size()
    def regular(self): return And(Not(self.zero), Not(self.nan), Not(self.inf))
    def wide(self, mw):
        """same value, mantissa of mw bits (wider)"""
        return Num(self.zero, self.nan, self.inf, self.sign, self.e, hi(self.m, mw))

class Cfg:
    SPECS = ('WithNan', 'WithInf', 'WithNanInf')
    def __init__(self, H, N, es, FT, spec):
        self.H, self.N, self.es, self.FT, self.spec = H, N, es, FT, spec
        self.F = N - 3 - es
        self.name = 'P%d_%d_%d_%d_%s' % (H, N, es, FT, spec)
        self.TOP = 1 << (N - 1)                # pattern 100..0
        self.MAXPOS = (1 << (N - 1)) - 1 - (1 if spec == 'WithNanInf' else 0)
        self.minexp = -(N - 2) * (1 << es)
        self.maxexp = (N - 2 - (1 if spec == 'WithNanInf' else 0)) * (1 << es)
        self.hasnan = spec != 'WithInf'
        self.hasinf = spec != 'WithNan'
        # bits of the fraction lost when cut to the fraction type with a hidden one
        self.ftfull = self.F <= FT
    def describe(self):
        return 'Posit<int%d_t,%d,%d,uint%d_t,%s>' % (self.H, self.N, self.es, self.FT, self.spec)
    def defines(self):
        return ['-DHT=int%d_t' % self.H, '-DHN=%d' % self.N, '-DHES=%d' % self.es, '-DHFT=uint%d_t' % self.FT, '-DHSPEC=' + self.spec]

    # ---- bit patterns
    def isnan(self, b): return b == V(self.TOP, self.N) if self.hasnan else F_
    def isinf(self, b):
        if self.spec == 'WithInf': return b == V(self.TOP, self.N)
        if self.spec == 'WithNanInf': return Or(b == V(self.TOP - 1, self.N), b == V(self.TOP + 1, self.N))
        return F_
    def special(self, b): return Or(self.isnan(b), self.isinf(b))
    NAN = property(lambda s: V(s.TOP, s.N))
    def nan_or(self): return V(self.TOP, self.N)      # what a NaN result encodes to (unsigned infinity when there is no NaN)
    def inf(self, sign):
        if self.spec == 'WithNanInf': return If(sign, V(self.TOP + 1, self.N), V(self.TOP - 1, self.N))
        return V(self.TOP, self.N)
    def const(self, n): return V(n, self.N)

    # ---- decode
    def mag_dec(self, body):
        """body: N-1 bits of a positive posit, non zero -> (exponent, fraction F' bits without hidden one, regime k, run length)"""
        N, es = self.N, self.es
        w = N - 1
        r0 = bit(body, w - 1)
        nb = If(r0, ~body, body)              # leading bit is 0; run of zeros = regime run
        # count of leading zeros of nb, at most w
        cnt, x = clz_norm(nb)
        allz = nb == V(0, w)
        run = If(allz, E(w), cnt)
        k = If(r0, run - 1, -run)
        sh = run + 1
        rest = If(UGE(sh, E(w)), V(0, w), body << zx(sh, w) if w <= EW else body << ZeroExt(w - EW, sh))
        if w <= 5 or (1 << w) <= w + 1:
            # width too small to hold the shift count: case by case
            rest = V(0, w)
            for s in range(2, w): rest = If(sh == E(s), body << V(s, w), rest)
        ex = zx(hi(rest, es), EW) if es > 0 else E(0)
        fw = max(1, self.F)
        r2 = Extract(w - es - 1, 0, rest) if es > 0 else rest
        fr = hi(r2, fw)
        return k * E(1 << es) + ex, fr, k, run

    def mag(self, b):
        return If(bit(b, self.N - 1), -b, b)
    def dec(self, b):
        N = self.N
        mg = self.mag(b)
        e, fr, k, run = self.mag_dec(Extract(N - 2, 0, mg))
        return Num(b == V(0, N), self.isnan(b), self.isinf(b), bit(b, N - 1), e, Concat(V(1, 1), fr))

    # ---- encode magnitude: largest posit <= value, minpos below minpos, MAXPOS above
    def enc_mag(self, e, m, inexact_in=F_):
        """returns (body as N bits positive, inexact)"""
        N, es = self.N, self.es
        k = (e >> E(es))
        lo = E(self.minexp); hi_ = E(self.maxexp)
        ebits = [Extract(es - 1, 0, e)] if es > 0 else []
        fr = Extract(m.size() - 2, 0, m) if m.size() > 1 else None
        pre = If(k >= E(0), V(2, 2), V(1, 2))
        parts = [pre] + ebits + ([fr] if fr is not None else [])
        s = Concat(*parts) if len(parts) > 1 else parts[0]
        W = s.size() + N
        s = Concat(s, V(0, N))
        shc = If(k >= E(0), k, -k - 1)
        shc = If(UGT(shc, E(N)), E(N), shc)
        sh = zx(shc, W)
        y = s >> sh
        body = Extract(W - 1, W - (N - 1), y)
        lost = Extract(W - N, 0, y) != V(0, W - N + 1)
        under = e < lo
        over = Or(e > hi_, UGT(body, V(self.MAXPOS, N - 1)))
        r = If(under, V(1, N - 1), If(over, V(self.MAXPOS, N - 1), body))
        inex = Or(inexact_in, under, over, lost)
        return ZeroExt(1, r), inex

    def enc(self, x):
        """Num -> pattern (truncation toward zero)"""
        r, _ = self.enc_mag(x.e, x.m)
        return If(x.nan, self.nan_or(), If(x.inf, self.nan_or() if not self.hasinf else self.inf(x.sign), If(x.zero, V(0, self.N), If(x.sign, -r, r))))

    def ordered(self, b):
        """signed value of pattern as the order key: the pattern itself, sign extended"""
        return b

def cmp_mag(e1, m1, e2, m2):
    """(lt, eq) of normalized magnitudes"""
    w = max(m1.size(), m2.size())
    a, b = hi(m1, w), hi(m2, w)
    return Or(e1 < e2, And(e1 == e2, ULT(a, b))), And(e1 == e2, a == b)

# ------------------------------------------------------------------ exact arithmetic
def exact_add(a, b):
    """regular a + regular b, exact up to a sticky bit. returns (iszero, sign, e, m, d) ; d = exponent distance"""
    w = max(a.mw, b.mw)
    ma, mb = hi(a.m, w), hi(b.m, w)
    swap = a.e < b.e
    eL, eS = If(swap, b.e, a.e), If(swap, a.e, b.e)
    mL, mS = If(swap, mb, ma), If(swap, ma, mb)
    sL, sS = If(swap, b.sign, a.sign), If(swap, a.sign, b.sign)
    d = eL - eS
    ext = w + 2
    W = w + ext + 1
    L = Concat(V(0, 1), mL, V(0, ext))
    S0 = Concat(V(0, 1), mS, V(0, ext))
    far = UGT(d, E(ext))
    S = If(far, V(1, W), LShR(S0, zx(d, W)))
    sub = Xor(sL, sS)
    pos = UGE(L, S)
    r = If(sub, If(pos, L - S, S - L), L + S)
    sign = If(sub, If(pos, sL, sS), sL)
    cnt, nm = clz_norm(r)
    return r == V(0, W), sign, eL + 1 - cnt, nm, d, sub

def Xor(a, b): return z3.Xor(a, b)

def prod_mant(p, ea, eb):
    """p: product of two mantissas of w bits with hidden one (2w bits) -> (e, normalized m of 2w bits)"""
    top = bit(p, p.size() - 1)
    return ea + eb + If(top, E(1), E(0)), If(top, p, p << 1)

# ------------------------------------------------------------------ IEEE like formats
class Fmt:
    """sign, eb exponent bits, fb fraction bits, bias; emax raw exponent of inf/nan = 2^eb-1"""
    def __init__(self, name, eb, fb, bias=None, denorm=True):
        self.name, self.eb, self.fb = name, eb, fb
        self.bias = (1 << (eb - 1)) - 1 if bias is None else bias
        self.w = 1 + eb + fb
        self.denorm = denorm
    def dec(self, b):
        eb, fb, w = self.eb, self.fb, self.w
        raw = Extract(w - 2, fb, b); fr = Extract(fb - 1, 0, b)
        top = raw == V((1 << eb) - 1, eb)
        z = raw == V(0, eb)
        f0 = fr == V(0, fb)
        cnt, nm = clz_norm(fr)
        e = If(z, E(-self.bias) - cnt, zx(raw, EW) - E(self.bias))
        # denormal: 0.f * 2^(1-bias): leading one at position cnt -> exponent -bias - cnt ; mantissa = nm
        m = If(z, Concat(nm, V(0, 1)), Concat(V(1, 1), fr))
        zero = And(z, f0) if self.denorm else z
        return Num(zero, And(top, Not(f0)), And(top, f0), bit(b, w - 1), e, m)
    def enc_reg(self, sign, e, m):
        """truncation toward zero, saturating at the largest finite; underflow -> +0"""
        eb, fb, w = self.eb, self.fb, self.w
        fr = hi(Extract(m.size() - 2, 0, m), fb) if m.size() > 1 else V(0, fb)
        raw = e + E(self.bias)
        over = raw >= E((1 << eb) - 1)
        norm = raw >= E(1)
        # denormal: fraction = 1.f >> (1 - raw)
        full = Concat(V(1, 1), fr) if m.size() - 1 <= fb else Extract(m.size() - 1, m.size() - 1 - fb, m)
        sh = E(1) - raw
        shc = If(UGT(sh, E(fb + 1)), E(fb + 1), sh)
        fw = full.size()
        big = max(fw, EW)
        den = Extract(fb - 1, 0, LShR(zx(full, big), zx(shc, big)))
        s = If(sign, V(1, 1), V(0, 1))
        mx = Concat(s, V((1 << eb) - 2, eb), V((1 << fb) - 1, fb))
        nv = Concat(s, Extract(eb - 1, 0, raw), fr)
        dv = If(den == V(0, fb), V(0, w), Concat(s, V(0, eb), den)) if self.denorm else V(0, w)
        return If(over, mx, If(norm, nv, dv))
    def isnan(self, b): return And(Extract(self.w - 2, self.fb, b) == V((1 << self.eb) - 1, self.eb), Extract(self.fb - 1, 0, b) != V(0, self.fb))
    def isinf(self, b): return And(Extract(self.w - 2, self.fb, b) == V((1 << self.eb) - 1, self.eb), Extract(self.fb - 1, 0, b) == V(0, self.fb))
    def inf(self, sign): return Concat(If(sign, V(1, 1), V(0, 1)), V((1 << self.eb) - 1, self.eb), V(0, self.fb))

SINGLE, DOUBLE, HALF = Fmt('single', 8, 23), Fmt('double', 11, 52), Fmt('half', 5, 10)
