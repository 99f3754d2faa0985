"""Goals over the tabulated posits posit8, posit10, posit12: the classes of include/posit*.hpp with the tables their generators produce.
The generators are built and run as the project's own build does; what the solver decides is what the classes answer, for every operand, with those tables."""
import os, subprocess
import z3
from z3 import If, And, Or, Not, BitVecVal as V, Extract, Concat, Implies
from oracle import *
from vc import TU, Goal, Sweep, REPO, GXX
import posit_goals as pg
from posit_goals import eqp, bo, ret, mul_special, div_special, add_special, faithful, i64

CF = dict(posit8=Cfg(8, 8, 0, 8, 'WithNan'), posit10=Cfg(16, 10, 2, 16, 'WithNan'), posit12=Cfg(16, 12, 2, 16, 'WithNan'))

def prepare(d, names, committed=False):
    """the tables, from the generators (and those in the tree under another namespace)"""
    procs = []
    for t in names:
        g = os.path.join(d, t + '_gen'); c = os.path.join(d, t + '_gentbl.cpp'); o = os.path.join(d, t + '_tbl.o')
        inc = '-I%s/include' % REPO
        sh = 'cd %s && %s -std=c++14 -O1 -march=native -w %s %s/src/%s_gen.cpp -o %s && timeout 100 %s %s && %s -O0 -fPIC -c %s -o %s' % (d, GXX, inc, REPO, t, g, g, c, GXX, c, o)
        if committed: sh += ' && %s -O0 -fPIC -D%sns=%scommitted -c %s/src/%s_tbl.cpp -o %s' % (GXX, t, t, REPO, t, os.path.join(d, t + '_com.o'))
        procs.append(subprocess.Popen(['bash', '-c', sh], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in procs: p.wait()

def tu(t, *groups, **kw):
    return TU('tab.cpp', ['-DTAB_T=' + t, '-DTAB_HPP="%s.hpp"' % t, '-DTAB_SRC="%s/src/%s.cpp"' % (REPO, t)] + ['-D' + g for g in groups] + (['-DNO_TWO'] if t == 'posit12' else ['-DTAB_FLOAT'] if t.startswith('binary') else []), native_libs=[t + '_tbl.o'], **kw)

class RowGoal(Goal):
    """binary operation with the upper bits of the first operand fixed: rows [row << k, (row+1) << k) of the table"""
    def __init__(self, name, tu, fn, c, row, k, nout, spec, **kw):
        self.c, self.row, self.k = c, row, k
        Goal.__init__(self, name, tu, fn, [('alow', k, 'u'), ('b', c.N, 's')], nout, lambda xs, o: spec(self.real(xs), o), **kw)
    def real(self, xs): return [Concat(V(self.row, self.c.N - self.k), xs[0]), xs[1]]
    def args64(self, xs):
        a, b = self.real(xs)
        return [sx(a, 64), sx(b, 64)]
    def conc64(self, vals):
        n = self.c.N
        def s(v):
            v &= (1 << n) - 1
            return v | (((1 << 64) - 1) ^ ((1 << n) - 1)) if v >> (n - 1) else v
        return [s((self.row << self.k) | vals[0]), s(vals[1])]

def add_ref(c, gap, neg=False):
    """truncated exact sum; beyond `gap` (where the generator's single precision sum rounds) an effective subtraction may also give the next one away from zero"""
    def sp(xs, o):
        a, b = xs
        if neg: b = If(b == V(c.TOP, c.N), b, -b)
        A, B = c.dec(a), c.dec(b)
        z, s, e, m, d, sub = exact_add(A, B)
        loose = And(sub, d > E(gap)) if gap is not None else F_
        both = And(A.regular(), B.regular())
        oks = []
        for x in o:
            R, v = ret(c, x)
            oks += [v, If(both, faithful(c, R, z, s, e, m, loose), R == add_special(c, a, b, V(0, c.N)))]
        return And(*oks)
    return sp

def mul_ref(c):
    return lambda xs, o: pg.mul_abs(c).full(xs, o)
def div_ref(c):
    return lambda xs, o: pg.div_abs(c).full(xs, o)

def exp2_ref(c):
    """2^x, correctly rounded one way or the other (the generators go through exp2f): for every pattern, the posits on both sides of the exact value"""
    from fractions import Fraction
    from decimal import Decimal, getcontext
    getcontext().prec = 80
    vals = {}                                       # value of every positive pattern
    N = c.N
    def val(p):
        if p == 0: return Fraction(0)
        b = p; r0 = (b >> (N - 2)) & 1; run = 0
        while run < N - 1 and (b >> (N - 2 - run)) & 1 == r0: run += 1
        k = run - 1 if r0 else -run
        left = max(0, N - 1 - run - 1); rest = b & ((1 << left) - 1)
        e = (rest << c.es >> left) if left >= c.es else rest << (c.es - left)
        fb = max(0, left - c.es); f = rest & ((1 << fb) - 1)
        return Fraction(2) ** (k * (1 << c.es) + e) * (1 + Fraction(f, 1 << fb))
    order = [val(p) for p in range(c.MAXPOS + 1)]
    import bisect
    def rng(p):
        if p == c.TOP: return (p, p)
        x = order[p] if p < c.TOP else -order[(1 << N) - p]
        if x >= 128: return (c.MAXPOS, c.TOP)        # beyond single precision, infinity or zero there
        if x < -126: return (1, 0)
        if x == int(x): y = Fraction(2) ** int(x)
        else: y = Fraction(Decimal(2) ** (Decimal(x.numerator) / Decimal(x.denominator)))
        if y > order[c.MAXPOS]: return (c.MAXPOS, c.MAXPOS)
        lo = bisect.bisect_right(order, y) - 1
        if lo == 0: return (1, 1)
        if order[lo] == y: return (lo, lo)
        # within one unit of single precision of the upper neighbour the generator may have rounded up
        up = lo + 1 if lo < c.MAXPOS and (order[lo + 1] - y) <= y / (1 << 22) else lo
        return (lo, up)
    tab = [rng(p) for p in range(1 << N)]
    def ref(xs, o):
        x = xs[0]
        def tree(i, lo, n):
            if n == 1: return V(tab[lo][i], N)
            h = n // 2; a, b = tree(i, lo, h), tree(i, lo + h, h)
            return a if a.eq(b) else If(bit(x, h.bit_length() - 1), b, a)
        l, u = tree(0, 0, 1 << N), tree(1, 0, 1 << N)
        return And(*[Or(eqp(c, y, l), eqp(c, y, u)) for y in o])
    return ref

def unary(t, c):
    u = tu(t, 'G_UN'); gs = []
    one = [pg.pv('a', c)]; two = [pg.pv('a', c), pg.pv('b', c)]
    top = V(c.TOP, c.N)
    def g(fn, ins, nout, spec, what, **kw): gs.append(Goal('%s.%s' % (t, fn), u, fn, ins, nout, spec, edge=pg.edges(c, len(ins)), what='%s of %s' % (what, t), **kw))
    g('t_inv', one, 2, lambda xs, o: pg.div_abs(c, True).full(xs, o), 'reciprocal')
    for fn, dl in (('t_half', -1), ('t_twice', 1)):
        def sp(xs, o, dl=dl):
            n = c.dec(xs[0]); r, _ = c.enc_mag(n.e + dl, n.m)
            return And(*[eqp(c, x, If(n.regular(), If(n.sign, -r, r), xs[0])) for x in o])
        g(fn, one, 2, sp, fn[2:])
    g('t_square', one, 2, lambda xs, o: pg.mul_abs(c).full([xs[0], xs[0]], o), 'square')
    g('t_exp2', one, 2, exp2_ref(c), 'power of two', solver='default')
    g('t_neg', one, 2, lambda xs, o: And(*[eqp(c, x, If(xs[0] == top, top, -xs[0])) for x in o]), 'opposite')
    g('t_abs', one, 1, lambda xs, o: eqp(c, o[0], If(And(bit(xs[0], c.N - 1), xs[0] != top), -xs[0], xs[0])), 'absolute value')
    def cmpv(xs):
        A, B = c.dec(xs[0]), c.dec(xs[1])
        lt0, eq0 = cmp_mag(A.e, A.m, B.e, B.m)
        gt0 = And(Not(lt0), Not(eq0))
        rank = lambda X: If(X.zero, V(0, 4), If(X.sign, V(-1, 4), V(1, 4)))
        ra, rb = rank(A), rank(B)
        eq = And(ra == rb, Or(A.zero, eq0))
        lt = Or(ra < rb, And(ra == rb, Not(A.zero), If(A.sign, gt0, lt0)))
        return And(Not(A.nan), Not(B.nan)), lt, eq
    def cm(xs, o):
        ok, lt, eq = cmpv(xs)
        return Implies(ok, And(bo(o[0], eq), bo(o[1], Not(eq)), bo(o[2], lt), bo(o[3], Or(lt, eq)), bo(o[4], And(Not(lt), Not(eq))), bo(o[5], Not(lt))))
    g('t_cmp', two, 6, cm, 'order')
    def mm(xs, o):
        ok, lt, eq = cmpv(xs)
        return Implies(ok, And(eqp(c, o[0], If(lt, xs[0], xs[1])), eqp(c, o[1], If(lt, xs[1], xs[0]))))
    g('t_minmax', two, 2, mm, 'minimum and maximum')
    g('t_class', one, 3, lambda xs, o: And(bo(o[0], xs[0] == top), bo(o[1], F_), bo(o[2], bit(xs[0], c.N - 1))), 'classification')
    return gs

def conv(t, c):
    u = tu(t, 'G_CONV'); gs = []
    one = [pg.pv('a', c)]
    def g(fn, ins, nout, spec, what, **kw): gs.append(Goal('%s.%s' % (t, fn), u, fn, ins, nout, spec, what='%s, %s' % (what, t), **kw))
    def fi(xs, o):
        x = xs[0]; neg = bit(x, 31); cnt, nm = clz_norm(If(neg, -x, x))
        return eqp(c, o[0], c.enc(Num(x == 0, F_, F_, neg, E(31) - cnt, nm)))
    g('t_fromi', [('x', 32, 'u')], 1, fi, 'from int', edge=[[0], [1], [0x80000000], [0x7fffffff], [0xffffffff], [2]])
    for fn, fm in (('t_fromf', SINGLE), ('t_fromd', DOUBLE)):
        one_ = fm.bias << fm.fb
        g(fn, [('x', fm.w, 'u')], 1, lambda xs, o, fm=fm: eqp(c, o[0], c.enc(fm.dec(xs[0]))), 'from ' + fm.name, edge=[[0], [1 << (fm.w - 1)], [1], [((1 << fm.eb) - 1) << fm.fb], [(1 << fm.w) - 1], [one_], [one_ | 1], [one_ - 1]])
    for fn, fm in (('t_tof', SINGLE), ('t_tod', DOUBLE)):
        def sp(xs, o, fm=fm):
            n = c.dec(xs[0]); x = Extract(fm.w - 1, 0, o[0])
            return And(Extract(63, fm.w, o[0]) == 0 if fm.w < 64 else T, If(n.nan, fm.isnan(x), If(n.zero, x == 0, x == fm.enc_reg(n.sign, n.e, n.m))))
        g(fn, one, 1, sp, 'to ' + fm.name, edge=pg.edges(c))
    def ti(xs, o):
        n = c.dec(xs[0]); top = hi(n.m, 31)
        mag = If(n.e < 0, V(0, 64), zx(LShR(top, zx(E(30) - n.e, 31)), 64))
        return o[0] == If(n.zero, V(0, 64), If(n.sign, -mag, mag))
    g('t_toi', one, 1, ti, 'to int (values within int)', edge=pg.edges(c), pre=lambda xs: And(Not(c.dec(xs[0]).nan), c.dec(xs[0]).e < 31))
    g('t_rtf', one, 2, lambda xs, o: And(*[eqp(c, x, xs[0]) for x in o]), 'through float and double and back', edge=pg.edges(c))
    g('t_posit', one, 5, lambda xs, o: And(*[eqp(c, x, xs[0]) for x in o]), 'to Posit/unpacked and back', edge=pg.edges(c))
    g('t_unpack', one, 4, pg.unpack_spec(c), 'decoding', edge=pg.edges(c))
    def k(xs, o):
        N = c.N
        def val(x, e):  # the regular number 2^e
            b = Extract(N - 1, 0, x); n = c.dec(b)
            return And(eqp(c, x, b), n.regular(), Not(n.sign), n.e == E(e), Extract(n.mw - 2, 0, n.m) == 0)
        mx, mn = eqp(c, o[4], V(c.MAXPOS, N)), eqp(c, o[5], V(1, N))
        return And(o[0] == 0, val(o[1], 0), val(o[2], 1), val(o[3], -1), mx, mn, eqp(c, o[6], V(c.TOP, N)), o[7] == o[1] + 1, o[8] == 0, o[9] == o[4], o[10] == o[5], val(o[11], -c.F))
    gs.append(Goal(t + '.t_const', u, 't_const', [('unused', 1, 'u')], 12, k, what='constants and limits of ' + t))
    return gs

def rows(t, c, k, ops, gap):
    u = tu(t, 'G_BIN'); gs = []
    for fn in ops:
        neg = fn == 't_sub'
        spec = {'t_add': add_ref(c, gap), 't_sub': add_ref(c, gap, True), 't_addeq': add_ref(c, gap), 't_mul': mul_ref(c), 't_muleq': mul_ref(c), 't_div': div_ref(c)}[fn]
        for r in range(1 << (c.N - k)):
            gs.append(RowGoal('%s.%s.rows%d' % (t, fn, r), u, fn, c, r, k, 2 if fn.endswith('eq') else 1, spec, what='%s of %s' % (fn[2:], t), nvec=4, weight=2))
    return gs

def relation(t, c):
    g = Goal(t + '.t_rel', tu(t, 'G_BIN'), 't_rel', [pg.pv('a', c), pg.pv('b', c)], 6, lambda xs, o: And(o[2] == o[0], o[3] == o[0], o[4] == o[1], o[5] == o[1]),
             edge=pg.edges(c, 2), what='+= and *= leave what + and * return, ' + t, solver='default')
    g.opaque = True                    # whatever the tables contain
    return g

def binary8(t='binary8tab'):
    """the tabulated 8 bit float: single precision operation, then truncation to 5 exponent and 2 fraction bits"""
    import anyf_goals as ag
    from vc import fp_apply
    f = Fmt('binary8', 5, 2); N = 8; gs = []
    c = Cfg(8, 8, 0, 8, 'WithNan')                 # holder only
    e1 = [[x] for x in ag.edge(f)]; e2 = [[x, y] for x in ag.edge(f)[:8] for y in ag.edge(f)[::2]]
    def tu8(*g): return TU('tab.cpp', ['-DTAB_T=binary8tab', '-DTAB_HPP="binary8.hpp"', '-DTAB_SRC="%s/src/binary8.cpp"' % REPO, '-DTAB_FLOAT'] + ['-D' + x for x in g], native_libs=['binary8_tbl.o'])
    low = lambda x: Extract(7, 0, x)
    def is_(x, n): return And(x == sx(low(x), 64), ag.out_is(f, zx(low(x), 64), n))
    B = lambda x: ag.to(SINGLE, f.dec(x))
    one = [('a', 8, 's')]; two = one + [('b', 8, 's')]
    def g(grp, fn, ins, nout, spec, what, **kw): gs.append(Goal('binary8tab.' + fn, tu8(grp), fn, ins, nout, spec, what='%s, binary8tab' % what, timeout=100, **kw))
    def op(fn, o_, x, y): return lambda xs, o: And(*[is_(w, SINGLE.dec(fp_apply(o_, x(xs), y(xs)))) for w in o])
    A0 = lambda xs: B(xs[0]); A1 = lambda xs: B(xs[1]); AN = lambda xs: B(xs[1] ^ V(0x80, 8))
    K = lambda v: lambda xs: V(v, 32)
    g('G_UN', 't_inv', one, 2, op('t_inv', 'fdiv', K(0x3f800000), A0), 'reciprocal', edge=e1)
    g('G_UN', 't_half', one, 2, op('t_half', 'fmul', K(0x3f000000), A0), 'half', edge=e1)
    g('G_UN', 't_twice', one, 2, op('t_twice', 'fmul', K(0x40000000), A0), 'double', edge=e1)
    g('G_UN', 't_square', one, 2, op('t_square', 'fmul', A0, A0), 'square', edge=e1)
    g('G_UN', 't_neg', one, 2, lambda xs, o: And(*[x == sx(xs[0] ^ V(0x80, 8), 64) for x in o]), 'opposite', edge=e1)
    g('G_UN', 't_abs', one, 1, lambda xs, o: o[0] == sx(xs[0] & V(0x7f, 8), 64), 'absolute value', edge=e1)
    g('G_UN', 't_cmp', two, 6, ag.cmp_spec(f), 'comparisons', edge=e2)
    def mm(xs, o): return Implies(ag.order(f, xs[0], xs[1])[0], ag.minmax_spec(f)(xs, [zx(low(x), 64) for x in o]))
    g('G_UN', 't_minmax', two, 2, mm, 'minimum and maximum', edge=e2)
    g('G_UN', 't_class', one, 2, lambda xs, o: And(*[bo(x, bit(xs[0], 7)) for x in o]), 'sign', edge=e1)
    g('G_CONV', 't_fromi', [('x', 32, 'u')], 1, lambda xs, o: is_(o[0], ag.int_num(xs[0])), 'from int', edge=[[0], [1], [0x80000000], [0x7fffffff], [0xffffffff], [2]])
    for fn, fm in (('t_fromf', SINGLE), ('t_fromd', DOUBLE)): g('G_CONV', fn, [('x', fm.w, 'u')], 1, lambda xs, o, fm=fm: is_(o[0], fm.dec(xs[0])), 'from ' + fm.name, edge=[[x] for x in ag.edge(fm)])
    for fn, fm in (('t_tof', SINGLE), ('t_tod', DOUBLE)): g('G_CONV', fn, one, 1, lambda xs, o, fm=fm: ag.out_is(fm, o[0], f.dec(xs[0])), 'to ' + fm.name, edge=e1)
    g('G_CONV', 't_toi', one, 1, lambda xs, o: o[0] == ag.int_of(f.dec(xs[0])), 'to int (finite values)', edge=e1, pre=lambda xs: And(Not(f.dec(xs[0]).nan), Not(f.dec(xs[0]).inf)))
    g('G_CONV', 't_rtf', one, 2, lambda xs, o: And(*[is_(x, f.dec(xs[0])) for x in o]), 'through float and double and back', edge=e1)
    g('G_CONV', 't_const', [('unused', 1, 'u')], 9, lambda xs, o: And(*[x == V(k, 64) for x, k in zip(o, (0, 15 << 2, (30 << 2) | 3, 1 << 2, (15 << 2) | 1, 0, (30 << 2) | 3, 1 << 2, 13 << 2))]), 'constants and limits')
    for fn, o_, y in (('t_add', 'fadd', A1), ('t_sub', 'fadd', AN), ('t_mul', 'fmul', A1), ('t_div', 'fdiv', A1), ('t_addeq', 'fadd', A1), ('t_muleq', 'fmul', A1)):
        for r in range(16):
            gs.append(RowGoal('binary8tab.%s.rows%d' % (fn, r), tu8('G_BIN'), fn, c, r, 4, 2 if fn.endswith('eq') else 1, op(fn, o_, A0, y), what='%s of binary8tab' % fn[2:], nvec=4, weight=2, timeout=100))
    return gs

def c27(tier, d):
    prepare(d, ['binary8'])
    return binary8()

def c17(tier, d):
    prepare(d, ['posit8'])
    c = CF['posit8']
    return unary('posit8', c) + conv('posit8', c) + rows('posit8', c, 4, ('t_add', 't_mul', 't_div', 't_sub', 't_addeq', 't_muleq'), None)

def c18(tier, d):
    prepare(d, ['posit10', 'posit12'])
    c, q = CF['posit10'], CF['posit12']
    gs = unary('posit10', c) + conv('posit10', c) + unary('posit12', q) + conv('posit12', q) + [relation('posit10', c)]
    gs += rows('posit10', c, 4, ('t_add', 't_sub') + (() if tier == 'quick' else ('t_addeq',)), 18)
    gs += rows('posit10', c, 3, ('t_mul', 't_div') + (() if tier == 'quick' else ('t_muleq',)), 18)
    u = tu('posit12', 'G_BIN'); two = [pg.pv('a', q), pg.pv('b', q)]
    for fn in ('t_add', 't_mul', 't_div', 't_sub', 't_addeq', 't_muleq'):
        ab = {'t_mul': pg.mul_abs(q), 't_muleq': pg.mul_abs(q), 't_div': pg.div_abs(q)}.get(fn)
        sp = ab.full if ab else (lambda xs, o, n=fn == 't_sub': And(*[pg.add_spec(q, n)(xs, [x]) for x in o]))
        gs.append(Goal('posit12.' + fn, u, fn, two, 2 if fn.endswith('eq') else 1, sp, absn=ab, edge=pg.edges(q, 2), what='%s of posit12' % fn[2:], timeout=200))
    return gs

# ------------------------------------------------------------------ the tables kept in the tree
TABS = dict(posit8=('int8_t', 8, ('opadd', 'opmul', 'opdiv'), ('opinv', 'ophalf', 'opsquare', 'opexp2')), posit12=('int16_t', 12, (), ('opinv', 'opsquare', 'opexp2')))

def c19(tier, d):
    prepare(d, list(TABS), committed=True)
    gs = []
    for t, (ty, n, big, small) in TABS.items():
        pairs = ' '.join('PAIR(%s, %s)' % (ty, x) for x in big + small) + ' PAIR(uint32_t, op2float)'
        u = TU('tabcmp.cpp', ['-DTAB_NS=%sns' % t, '-DTAB_COM=%scommitted' % t, '-DTAB_PAIRS=' + pairs], native_libs=[t + '_tbl.o', t + '_com.o'])
        for x in small + ('op2float',):
            gs.append(Goal('%s.%s' % (t, x), u, 'c_' + x, [('i', n, 'u')], 2, lambda xs, o: o[0] == o[1], what='entry of the table %s of src/%s_tbl.cpp against the generator' % (x, t)))
        for x in big:
            for r in range(8): gs.append(Chunk('%s.%s.%d' % (t, x, r), u, 'c_' + x, r, 2 * n - 3, 'entry of the table %s of src/%s_tbl.cpp against the generator' % (x, t)))
    return gs

class Chunk(Goal):
    """entries [r << k, (r+1) << k)"""
    def __init__(self, name, tu, fn, r, k, what):
        self.r, self.k = r, k
        Goal.__init__(self, name, tu, fn, [('low', k, 'u')], 2, lambda xs, o: o[0] == o[1], what=what, nvec=6)
    def args64(self, xs): return [Concat(V(self.r, 64 - self.k), xs[0])]
    def conc64(self, vals): return [(self.r << self.k) | vals[0]]
