"""Goals over PositF<T,N,ES,float|double,Spec>: the posit that computes in hardware floating point."""
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Implies
from oracle import *
from vc import Goal, FloatOps
import posit_goals as pg, posit_more as pm, anyf_goals as ag
from posit_goals import eqp, bo, pv, tu, edges

class FC(Cfg):
    def __init__(self, H, N, es, impl, spec):
        Cfg.__init__(self, H, N, es, 32 if impl == 'float' else 64, spec)
        self.impl = impl; self.fm = SINGLE if impl == 'float' else DOUBLE
        self.name = 'F%d_%d_%d_%s_%s' % (H, N, es, impl, spec)
    def describe(self): return 'PositF<int%d_t,%d,%d,%s,%s>' % (self.H, self.N, self.es, self.impl, self.spec)
    def defines(self): return ['-DHT=int%d_t' % self.H, '-DHN=%d' % self.N, '-DHES=%d' % self.es, '-DPFT=' + self.impl, '-DHSPEC=' + self.spec]

QUICK = [FC(8, 8, 0, 'float', 'WithNan'), FC(8, 8, 1, 'double', 'WithNanInf'), FC(16, 16, 1, 'float', 'WithNan'), FC(16, 12, 2, 'double', 'WithInf'), FC(32, 32, 2, 'double', 'WithNan'), FC(32, 32, 2, 'float', 'WithNanInf'), FC(32, 8, 3, 'double', 'WithNan')]
MORE = [FC(8, 8, 2, 'float', 'WithInf'), FC(16, 16, 2, 'double', 'WithNanInf'), FC(16, 14, 3, 'float', 'WithNanInf'), FC(32, 24, 1, 'float', 'WithNan'), FC(32, 32, 3, 'double', 'WithInf'), FC(32, 28, 5, 'double', 'WithNan'), FC(64, 48, 3, 'double', 'WithNan')]

def nonan(c, g):
    """the patterns are compared: order claimed of numbers"""
    full = g.spec
    g.spec = lambda xs, o: Implies(And(*[Not(c.isnan(x)) for x in xs]), full(xs, o))
    return g

def one(c):
    gs = []
    t = tu(c, 'G_PF')
    o1, o2, o3 = [[pv(n, c) for n in 'abc'[:k]] for k in (1, 2, 3)]
    fm = c.fm
    B = lambda x: ag.to(fm, c.dec(x))
    ONE = V(fm.bias << fm.fb, fm.w)
    top = V(c.TOP, c.N)
    R = lambda o, r: And(*[eqp(c, x, c.enc(fm.dec(r))) for x in o])
    def ops(fn, ins, nout, opl, spec2, what):
        k = FloatOps(opl, spec2)
        gs.append(Goal('%s.%s' % (c.name, fn), t, fn, ins, nout, k.full, absn=k, edge=edges(c, len(ins)), what='%s of %s' % (what, c.describe()), timeout=100, weight=c.N))
    ng = lambda x: If(x == top, x, -x)
    ops('p_mul', o2, 3, lambda xs: [('fmul', B(xs[0]), B(xs[1]))], lambda xs, o, r: R(o, r[0]), 'product')
    def ad(neg):
        y = lambda xs: ng(xs[1]) if neg else xs[1]
        # zero is neutral, whatever its partner loses on the way through the float
        def sp(xs, o, r): return And(*[eqp(c, x, If(xs[0] == 0, y(xs), If(xs[1] == 0, xs[0], c.enc(fm.dec(r[0]))))) for x in o])
        return (lambda xs: [('fadd', B(xs[0]), B(y(xs)))]), sp
    ops('p_add', o2, 3, *ad(False), 'sum'); ops('p_sub', o2, 1, *ad(True), 'difference')
    ops('p_div', o2, 1, lambda xs: [('fdiv', B(xs[0]), B(xs[1]))], lambda xs, o, r: R(o, r[0]), 'quotient')
    ops('p_inv', o1, 3, lambda xs: [('fdiv', ONE, B(xs[0]))], lambda xs, o, r: R(o, r[0]), 'reciprocal')
    def D(x):
        """through the implementation type to double"""
        return ag.to(DOUBLE, fm.dec(B(x)))
    ops('p_half', o1, 1, lambda xs: [('fmul', V(0x3fe << 52, 64), D(xs[0]))], lambda xs, o, r: And(*[eqp(c, x, c.enc(DOUBLE.dec(r[0]))) for x in o]), 'half')
    ops('p_twice', o1, 1, lambda xs: [('fadd', B(xs[0]), B(xs[0]))], lambda xs, o, r: R(o, r[0]), 'double')
    ops('p_fma', o3, 1, lambda xs: [('fmul', B(xs[0]), B(xs[1])), ('fadd', lambda r: r[0], B(xs[2]))], lambda xs, o, r: R(o, r[1]), 'product then sum')
    gs.append(Goal('%s.p_pack' % c.name, t, 'p_pack', o1, 5, lambda xs, o: And(pg.unpack_spec(c)(xs, o[:4]), eqp(c, o[4], xs[0])), edge=edges(c), what='unpack_posit and pack_posit of %s' % c.describe()))
    # what it shares with the other posits
    rest = pg.c01([c]) + [g for g in pg.c02([c]) + pg.c03([c]) if g.fn not in ('h_rtbin', 'h_frombin')] + pg.c04([c]) + pg.c05([c]) + pg.c06([c]) + [nonan(c, g) if g.fn == 'h_constself' else g for g in pm.c21([c]) if g.fn != 'h_limits' or c.F <= fm.fb] + [g for g in pm.c23([c]) if g.fn != 'h_urdelta']
    for g in pg.c07([c]):
        if g.fn == 'h_cmp': nonan(c, g)
        rest.append(g)
    return gs + rest

def c25(tier, d):
    return sum([one(c) for c in QUICK + (MORE if tier != 'quick' else [])], [])
