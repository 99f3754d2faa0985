"""Verification conditions: build the harness from /repo, encode it, ask the solver, replay counterexamples natively, write evidence."""
import os, sys, json, time, shutil, subprocess, tempfile, random, ctypes, hashlib, signal, traceback, itertools
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import llsym, evalz, sweep as sweeping

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = next((p for p in ('/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(p)), 'clang++')
GXX = 'g++'
SAN = ['-fsanitize=shift-exponent,signed-integer-overflow,integer-divide-by-zero,builtin,unreachable,return,bounds,float-cast-overflow,null,bool', '-fsanitize-trap=all']
V = z3.BitVecVal

class TU:
    """a harness translation unit with its definitions"""
    def __init__(self, src, defs, sanitize=False, extra=(), native_extra=(), native_libs=(), opt='-O2'):
        self.src, self.defs, self.sanitize = src, list(defs), sanitize
        self.extra, self.native_extra, self.native_libs = list(extra), list(native_extra), list(native_libs)
        self.opt = opt
        self.key = hashlib.sha1(repr((src, self.defs, sanitize, self.extra, self.native_extra, self.native_libs, opt)).encode()).hexdigest()[:16]
        self.nkey = hashlib.sha1(repr((src, self.defs, self.native_extra, self.native_libs) + (('san',) if sanitize else ())).encode()).hexdigest()[:16]
        self.error = None
    def srcpath(self): return self.src if os.path.isabs(self.src) else os.path.join(VERIF, 'harness', self.src)
    def incs(self, d): return ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(VERIF, 'harness'), '-I', d]
    def ir_cmd(self, d):
        return [CLANG, '-std=c++14', self.opt, '-S', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-exceptions', '-mbmi', '-ffp-contract=off', '-w', '-mllvm', '-inline-threshold=1000000', '-mllvm', '-inlinehint-threshold=1000000'] + \
            (SAN if self.sanitize else []) + self.defs + self.extra + self.incs(d) + [self.srcpath(), '-o', os.path.join(d, self.key + '.ll')]
    def so_cmd(self, d, cxx=GXX, opt='-O2', tag=''):
        san = []
        if self.sanitize: cxx, opt, san = CLANG, '-O1', SAN
        return [cxx, '-std=c++14', opt, '-fPIC', '-shared', '-march=native', '-ffp-contract=off', '-w'] + san + self.defs + self.native_extra + self.incs(d) + [self.srcpath()] + \
            [x if os.path.isabs(x) else os.path.join(d, x) for x in self.native_libs] + ['-o', os.path.join(d, self.nkey + tag + '.so')]

class Goal:
    def __init__(self, name, tu, fn, ins, nout, spec, pre=None, absn=None, cases=None, timeout=60, edge=None, what='', assume_ok=None, weight=1, nvec=24, tier='quick', solver=None, long=0):
        self.name, self.tu, self.fn, self.ins, self.nout, self.spec = name, tu, fn, ins, nout, spec
        self.pre, self.absn, self.cases, self.timeout, self.what, self.weight, self.nvec, self.tier = pre, absn, cases, timeout, what, weight, nvec, tier
        self.edge = edge
        self.isnan = None                 # outputs that are only known to be some NaN
        self.solver = solver; self.long = long   # seconds this goal may take although others may not
    def syms(self): return [z3.BitVec('i_' + n, w) for n, w, _ in self.ins]
    def args64(self, xs):
        r = []
        for (n, w, k), x in zip(self.ins, xs):
            if w == 64: r.append(x)
            else: r.append(z3.SignExt(64 - w, x) if k == 's' else z3.ZeroExt(64 - w, x))
        return r
    def conc64(self, vals):
        r = []
        for (n, w, k), v in zip(self.ins, vals):
            v &= (1 << w) - 1
            if k == 's' and w < 64 and v >> (w - 1): v |= ((1 << 64) - 1) ^ ((1 << w) - 1)
            r.append(v)
        return r
    def presym(self, xs): return self.pre(xs) if self.pre else z3.BoolVal(True)

# ------------------------------------------------------------------ native execution
class Crash(Exception): pass

def native_batch(so, fn, nin, nout, vecs, timeout=20):
    """run fn of the shared object on every vector in a child process; returns list of output lists or 'CRASH'"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 1); os.dup2(devnull, 2)
            lib = ctypes.CDLL(so)
            f = getattr(lib, fn); f.restype = None
            A = ctypes.c_uint64 * max(1, nin); B = ctypes.c_uint64 * max(1, nout)
            for v in vecs:
                a = A(*v); b = B()
                f(a, b)
                os.write(w, b''.join(int(x).to_bytes(8, 'little') for x in b))
            os._exit(0)
        except BaseException:
            os._exit(77)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c: break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    sz = 8 * max(1, nout)
    out = []
    for i in range(len(buf) // sz):
        out.append([int.from_bytes(buf[i * sz + 8 * j:i * sz + 8 * j + 8], 'little') for j in range(nout)])
    if len(out) < len(vecs):
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77: raise RuntimeError('native harness could not be run')
        out.append('CRASH' if not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM) else 'HANG')
        rest = vecs[len(out):]
        if rest: out += native_batch(so, fn, nin, nout, rest, timeout)
    return out

# ------------------------------------------------------------------ solving
class Stats:
    def __init__(self):
        self.q = 0; self.unsat = 0; self.sat = 0; self.unknown = 0; self.time = 0.0; self.cvc5 = 0

def bv_solver(which=None):
    which = which or os.environ.get('BVS', 'bits')
    if which == 'bits': return z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver()
    if which == 'bits2': return z3.Then('simplify', 'bit-blast', 'sat').solver()
    if which == 'aig': return z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'max-bv-sharing', 'bit-blast', 'aig', 'sat').solver()
    return z3.SolverFor('QF_BV')

def cvc5_check(asserts, timeout):
    """fallback portfolio member, through SMT-LIB text"""
    exe = shutil.which('cvc5')
    if not exe: return 'unknown'
    s = z3.Solver(); s.add(*asserts)
    txt = '(set-logic QF_BVFP)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        p = subprocess.run([exe, '--tlimit=%d' % int(timeout * 1000), '--bv-solver=bitblast', '--bitblast=eager', f.name], capture_output=True, text=True, timeout=timeout + 20)
        o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally: os.unlink(f.name)

def has_fp(es):
    seen = set(); st = list(es)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_fp(e): return True
        st.extend(e.children())
    return False

def has_uf(es):
    seen = set(); st = list(es)
    while st:
        e = st.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return True
        st.extend(e.children())
    return False

def check(asserts, timeout, stats, want_model=True, solver=None):
    """returns ('unsat',None) | ('sat',model) | ('unknown',None)"""
    t = time.time(); stats.q += 1
    simp = [z3.simplify(a) for a in asserts]
    if any(z3.is_false(a) for a in simp):
        stats.unsat += 1; stats.time += time.time() - t; return 'unsat', None
    s = z3.Solver() if has_fp(simp) or solver == 'default' or has_uf(simp) else bv_solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*simp)
    r = s.check()
    m = None
    if r == z3.sat: m = s.model(); stats.sat += 1; res = 'sat'
    elif r == z3.unsat: stats.unsat += 1; res = 'unsat'
    else: res = 'unknown'
    stats.time += time.time() - t
    if res == 'unknown': stats.unknown += 1
    return res, m

def mval(m, x):
    v = m.eval(x, model_completion=True)
    return v.as_long()

# ------------------------------------------------------------------ one goal
EDGES = {}
def edge_values(w):
    if w in EDGES: return EDGES[w]
    s = {0, 1, 2, 3, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, (1 << (w - 1)) - 2, (1 << (w - 1)) + 2}
    if w > 2: s |= {1 << (w - 2), (1 << (w - 2)) + 1, (1 << (w - 2)) - 1, 3 << (w - 2)}
    EDGES[w] = sorted(x & ((1 << w) - 1) for x in s)
    return EDGES[w]

def make_vectors(goal, rng, k):
    out = []
    for i in range(k):
        v = []
        for n, w, kind in goal.ins:
            c = rng.random()
            if c < .35: v.append(rng.choice(edge_values(w)))
            elif c < .6: v.append(rng.getrandbits(w) >> rng.randrange(w))
            elif c < .75: v.append(((1 << w) - 1) ^ (rng.getrandbits(w) >> rng.randrange(w)))
            else: v.append(rng.getrandbits(w))
        out.append(v)
    if goal.edge: out = [list(x) for x in goal.edge] + out
    return out

def subst_val(e, xs, vals, frees=None):
    e2 = z3.substitute(e, *[(x, V(v, x.size())) for x, v in zip(xs, vals)])
    return z3.simplify(e2)

def zero_free(e):
    """replace the remaining free constants (undefined values) by 0"""
    seen = {}; st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen[x.get_id()] = x
        st.extend(x.children())
    subs = []
    for x in seen.values():
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            subs.append((x, z3.BoolVal(False) if z3.is_bool(x) else V(0, x.size()) if z3.is_bv(x) else z3.FPVal(0.0, x.sort())))
    return z3.simplify(z3.substitute(e, *subs)) if subs else e

def spec_on(goal, vals, outs):
    """spec on concrete inputs and native outputs; True/False/None"""
    xs = [V(v & ((1 << w) - 1), w) for v, (n, w, k) in zip(vals, goal.ins)]
    if goal.pre is not None:
        p = z3.simplify(goal.pre(xs))
        if z3.is_false(p): return None
    if isinstance(outs, str): return False
    r = z3.simplify(goal.spec(xs, [V(o, 64) for o in outs]))
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    s = z3.Solver(); s.set('timeout', 10000); s.add(z3.Not(r))
    c = s.check()
    return True if c == z3.unsat else False if c == z3.sat else None

class GoalRun:
    def __init__(self, goal, d, seed, budget):
        self.g, self.d, self.seed = goal, d, seed
        self.stats = Stats()
        self.res = dict(goal=goal.name, fn=goal.fn, status='undecided', notes=[], violations=[], validated=0, mismatches=0, states=0, transitions=0, instr=0, funcs=[], unwind=0)
        self.deadline = time.time() + budget
        self.so = os.path.join(d, goal.tu.nkey + '.so')
        self.replayed = 0
    def left(self): return max(1.0, min(self.g.timeout, self.deadline - time.time()))

    def natives(self):
        """builds of the real code for replay: the ordinary one first, then others on demand"""
        if self.g.tu.sanitize:
            yield 'clang++ -O1 ' + SAN[0], self.so
            return
        yield 'g++ -O2', self.so
        for cxx, opt, tag in ((GXX, '-O0', '_g0'), (CLANG, '-O2', '_c2')):
            p = os.path.join(self.d, self.g.tu.nkey + tag + '.so')
            if not os.path.exists(p):
                tmp = p + '.%d' % os.getpid()
                cmd = self.g.tu.so_cmd(self.d, cxx, opt, tag); cmd[-1] = tmp
                if subprocess.run(cmd, capture_output=True).returncode != 0: continue
                os.rename(tmp, p)
            yield '%s %s' % (os.path.basename(cxx), opt), p

    def replay(self, vals, more=True):
        """run the real code on a counterexample; a violation only if the specification fails on what it returned"""
        self.replayed += 1
        for how, so in self.natives():
            o = native_batch(so, self.g.fn, len(self.g.ins), self.g.nout, [self.g.conc64(vals)])[0]
            s = spec_on(self.g, vals, o)
            if s is False:
                self.res['violations'].append(dict(goal=self.g.name, fn=self.g.fn, what=self.g.what, native=how, inputs={n: hex(v & ((1 << w) - 1)) for (n, w, k), v in zip(self.g.ins, vals)},
                    outputs=o if isinstance(o, str) else [hex(x) for x in o], src=self.g.tu.src, defs=self.g.tu.defs))
                return True
            if not more: break
        return False

    def query(self, asserts, label, tries=6):
        """-> 'unsat' | 'violated' | 'spurious' | 'unknown'"""
        xs = self.xs
        block = []
        for k in range(tries):
            r, m = check(asserts + block, self.left(), self.stats, solver=self.g.solver)
            if r == 'unsat': return 'unsat' if k == 0 else 'spurious'
            if r == 'unknown':
                if k == 0 and self.left() > 5:
                    c = cvc5_check([z3.simplify(a) for a in asserts], self.left())
                    self.stats.cvc5 += 1
                    if c == 'unsat':
                        self.stats.unsat += 1; self.stats.unknown -= 1
                        return 'unsat'
                return 'unknown' if k == 0 else 'spurious'
            vals = [mval(m, x) for x in xs]
            if self.replay(vals): return 'violated'
            self.res['notes'].append('%s: model %s not confirmed by the real code' % (label, [hex(v) for v in vals]))
            block.append(z3.Or(*[x != V(v, x.size()) for x, v in zip(xs, vals)]))
        return 'spurious'

    def run(self):
        g = self.g; res = self.res
        t0 = time.time()
        mod = llsym.Module(os.path.join(self.d, g.tu.key + '.ll'))
        if g.tu.native_libs: mod.data_from = self.so
        mod.opaque = getattr(g, 'opaque', False)
        xs = self.xs = g.syms()
        try:
            outs, ex, cond = llsym.run_harness(mod, g.fn, g.args64(xs), g.nout)
        except llsym.Unsupported as e:
            res['notes'].append('not encoded: %s' % e); outs = None
        rng = random.Random('%s/%s' % (self.seed, g.name))
        vecs = make_vectors(g, rng, g.nvec)
        vecs = [v for v in vecs if g.pre is None or not z3.is_false(z3.simplify(g.pre([V(a & ((1 << w) - 1), w) for a, (n, w, k) in zip(v, g.ins)])))]
        nat = native_batch(self.so, g.fn, len(g.ins), g.nout, [g.conc64(v) for v in vecs])
        if outs is not None:
            res['states'], res['transitions'], res['instr'] = ex.nblocks, ex.nedges, ex.ninstr
            res['funcs'] = sorted(ex.funcs); res['unwind'] = ex.maxiter
        # the encoding against the real code, on concrete vectors
        for v, o in zip(vecs, nat):
            if isinstance(o, str):
                res['notes'].append('%s on %s' % (o, [hex(a) for a in v]))
                if spec_on(g, v, o) is False: self.replay(v)
                continue
            if outs is not None and not mod.opaque:
                trapped = any(z3.is_true(zero_free(subst_val(c, xs, v))) for c, w in ex.traps) if ex.traps and g.tu.sanitize else False
                if not trapped:
                    enc = [zero_free(subst_val(e, xs, v)) for e in outs]
                    same = all(z3.is_bv_value(e) and (e.as_long() == x or (g.isnan is not None and g.isnan(e.as_long()) and g.isnan(x))) for e, x in zip(enc, o))
                    if same: res['validated'] += 1
                    else:
                        res['mismatches'] += 1
                        if len(res['notes']) < 10: res['notes'].append('encoding differs from the build on %s: %s vs %s' % ([hex(a) for a in v], [hex(x) for x in o], [str(e)[:40] for e in enc]))
                        if spec_on(g, v, o) is False: self.replay(v)
            elif spec_on(g, v, o) is False: self.replay(v)
            if res['violations']: break
        if vecs and nat: res['sample'] = dict(goal=g.name, inputs=[hex(a) for a in vecs[0]], outputs=nat[0] if isinstance(nat[0], str) else [hex(x) for x in nat[0]])
        if res['violations']: res['status'] = 'violated'
        elif outs is not None:
            try: self.decide(outs, ex, cond)
            except llsym.Unsupported as e: res['notes'].append('not decided: %s' % e)
        st = self.stats
        res.update(queries=st.q, unsat=st.unsat, sat=st.sat, unknown=st.unknown, cvc5=st.cvc5, solver_s=round(st.time, 3), wall=round(time.time() - t0, 2), replays=self.replayed)
        return res

    def decide(self, outs, ex, cond):
        g, xs, res = self.g, self.xs, self.res
        pre = [g.presym(xs)] + ex.assume
        # loops
        for c, w in ex.unwound:
            r, m = check(pre + [c], self.left(), self.stats)
            if r != 'unsat':
                res['notes'].append('loop bound reached at %s' % w); return
        if g.tu.sanitize: return self.decide_ub(pre, ex, cond)
        # reached undefined behaviour: replay some of it (whether there is any is decided by the property on undefined behaviour)
        for c, w in ex.traps:
            r = self.query(pre + [c], 'trap ' + w, tries=3)
            if r == 'violated': res['status'] = 'violated'; return
            if r != 'unsat': res['notes'].append('reachable: ' + w)
        comp = z3.simplify(cond)
        # not vacuous: some execution completes
        r, m = check(pre + [comp], self.left(), self.stats)
        if r == 'unsat':
            res['notes'].append('no execution completes'); return
        if g.absn is not None:
            r = g.absn.decide(self, outs, ex, comp, pre)
        else:
            r = self.direct(outs, comp, pre)
        if r == 'unsat': res['status'] = 'held'
        elif r == 'violated': res['status'] = 'violated'
        else: res['status'] = 'undecided'; res['notes'].append('main query: ' + r)

    def decide_ub(self, pre, ex, cond):
        """no input reaches an instrumented operation with operands for which it is undefined"""
        g, res = self.g, self.res
        traps = [(z3.simplify(c), w) for c, w in ex.traps]
        traps = [(c, w) for c, w in traps if not z3.is_false(c) and '@switch.table.' not in w]   # tables the compiler made
        res['cuts'] = '%d conditions' % len(traps)
        r = 'unsat'
        if traps:
            r = 'unknown'
            # first with hardware operations and products left open (any result)
            fops = []
            mod = llsym.Module(os.path.join(self.d, g.tu.key + '.ll'))
            if g.tu.native_libs: mod.data_from = self.so
            o2, ex2, c2 = llsym.run_harness(mod, g.fn, g.args64(xs := self.xs), g.nout, fops=fops)
            if fops or ex2.muls:
                allt = z3.Or(*[c for c, w in ex2.traps if '@switch.table.' not in w])
                for j, (m_, x_, y_) in reversed(list(enumerate(ex2.muls))): allt = z3.substitute(allt, (m_, z3.BitVec('anyprod!%d' % j, m_.size())))
                r = check(pre + [allt], self.left(), self.stats)[0]
            if r != 'unsat': r = self.query(pre + [z3.Or(*[c for c, w in traps])], 'any') if len(traps) < 200 else 'unknown'
        if r not in ('unsat', 'violated'):
            worst = 'unsat'
            for c, w in traps:
                r = self.query(pre + [c], 'trap ' + w, tries=3)
                if r == 'violated': break
                if r != 'unsat': worst = r; res['notes'].append('%s: %s' % (w, r))
            if r != 'violated': r = worst
        if r == 'unsat':
            q, m = check(pre + [z3.simplify(c2 if traps and fops else cond)], self.left(), self.stats)
            if q == 'unsat': res['notes'].append('no execution completes'); return
            res['status'] = 'held'
        elif r == 'violated': res['status'] = 'violated'
        else: res['notes'].append('conditions: ' + r)

    def direct(self, outs, comp, pre):
        g, xs = self.g, self.xs
        bad = z3.Not(g.spec(xs, outs))
        if not g.cases: return self.query(pre + [comp, bad], 'main')
        cs = [(l, f(xs)) for l, f in g.cases]
        r = self.query(pre + [z3.Not(z3.Or(*[c for l, c in cs]))], 'cover')
        if r != 'unsat': return r
        worst = 'unsat'
        for l, c in cs:
            r = self.query(pre + [comp, bad, c], l)
            if r == 'violated': return r
            if r != 'unsat': worst = r
        return worst

# ------------------------------------------------------------------ abstraction of wide products and quotients
class Products:
    """operands(xs) -> list of (mA, mB, regular): products of mantissas the property speaks about; spec2(xs, outs, [p...]).
    Every multiplier met in the code is shown (solver) to multiply shifted copies of one of those operand pairs, and is then replaced,
    together with the product in the specification, by one common unknown p within the range of such products."""
    def __init__(self, operands, spec2, normal=True): self.operands, self.spec2, self.normal = operands, spec2, normal   # normal: operands with their top bit set
    def full(self, xs, outs):
        ps = []
        for a, b, reg in self.operands(xs):
            w = a.size() + b.size()
            ps.append(z3.ZeroExt(b.size(), a) * z3.ZeroExt(a.size(), b))
        return self.spec2(xs, outs, ps)
    def decide(self, run, outs, ex, comp, pre):
        g, xs = run.g, run.xs
        ops = self.operands(xs)
        uniq = []
        for r, x, y in ex.muls:
            if not any(r.eq(u[0]) for u in uniq): uniq.append((r, x, y))
        rng = random.Random(5)
        ps = []; facts = []
        for k, (a, b, reg) in enumerate(ops):
            wa, wb = a.size(), b.size()
            p = z3.BitVec('prod!%d' % k, wa + wb)
            facts += ([z3.UGE(p, V(1 << (wa + wb - 2), wa + wb))] if self.normal else []) + [z3.ULE(p, V(((1 << wa) - 1) * ((1 << wb) - 1), wa + wb))]
            ps.append(p)
        subs = []
        for j, (r, x, y) in enumerate(uniq):
            hit = None
            for k, (a, b, reg) in enumerate(ops):
                for (u, v) in ((x, y), (y, x)):
                    s1, s2 = self.shift(run, u, a, reg, rng), self.shift(run, v, b, reg, rng)
                    if s1 is None or s2 is None: continue
                    w = r.size()
                    def sh(e, s): 
                        e = z3.ZeroExt(w - e.size(), e) if w > e.size() else z3.Extract(w - 1, 0, e)
                        return e << V(s, w)
                    if s1 + s2 >= w: continue
                    rr, m = check(pre + [reg, z3.Or(u != sh(a, s1), v != sh(b, s2))], run.left(), run.stats)
                    if rr == 'unsat': hit = (k, s1 + s2); break
                    if rr == 'sat' and run.replay([mval(m, q) for q in xs]): return 'violated'
                if hit: break
            if not hit:
                run.res['notes'].append('a product of the code does not match those of the property: direct query')
                return run.direct(outs, comp, pre)
            k, s = hit; w = r.size(); p = ps[k]
            e = z3.ZeroExt(w - p.size(), p) if w > p.size() else z3.Extract(w - 1, 0, p)
            subs.append((r, z3.If(ops[k][2], e << V(s, w), z3.BitVec('other!%d' % j, w))))
        o2 = [z3.substitute(o, *subs) for o in outs] if subs else outs
        c2 = z3.substitute(comp, *subs) if subs else comp
        bad = z3.Not(self.spec2(xs, o2, ps))
        r = run.query(pre + facts + [c2, bad], 'with common product')
        if r in ('unsat', 'violated'): return r
        run.res['notes'].append('common product: %s; direct query' % r)
        return run.direct(outs, comp, pre)
    def shift(self, run, u, a, reg, rng):
        s = None; n = 0
        for _ in range(60):
            v = make_vectors(run.g, rng, 1)[-1]
            if not z3.is_true(zero_free(subst_val(reg, run.xs, v))): continue
            uv, av = zero_free(subst_val(u, run.xs, v)).as_long(), zero_free(subst_val(a, run.xs, v)).as_long()
            if av == 0 and uv == 0: continue
            if av == 0 or uv == 0: return None
            q, m = divmod(uv, av)
            if m or q & (q - 1): return None
            t = q.bit_length() - 1
            if s is not None and t != s: return None
            s = t; n += 1
            if n >= 6: break
        return s if n else None

class Quotient:
    """operands(xs) -> (mA, mB, regular), same width w; spec2(xs, outs, Q, K0, K1): Q = floor(mA*2^Kd/mB), d = (mA < mB)"""
    def __init__(self, operands, spec2, K): self.operands, self.spec2, self.K = operands, spec2, K
    def full(self, xs, outs):
        a, b, reg = self.operands(xs)
        W = a.size() + self.K + 2
        d = z3.ULT(a, b)
        n = z3.ZeroExt(W - a.size(), a) << z3.If(d, V(self.K + 1, W), V(self.K, W))
        q = z3.UDiv(n, z3.ZeroExt(W - b.size(), b))
        return self.spec2(xs, outs, z3.Extract(self.K + 1, 0, q), self.K, self.K + 1)
    def decide(self, run, outs, ex, comp, pre):
        g, xs = run.g, run.xs
        a, b, reg = self.operands(xs)
        uniq = []
        for op, r, x, y in ex.divs:
            if op not in ('udiv', 'sdiv'): continue
            if not any(r.eq(u[0]) for u in uniq): uniq.append((r, x, y))
        rng = random.Random(6)
        d = z3.ULT(a, b)
        subs = []; facts = []
        K = None; Q = None
        for j, (r, x, y) in enumerate(uniq):
            w = r.size()
            sh = {}
            for name, u, v in (('x', x, a), ('y', y, b)):
                for dd in (0, 1): sh[name, dd] = self.shift(run, u, v, z3.And(reg, d if dd else z3.Not(d)), rng)
            if all(v is not None for v in sh.values()):
                k0, k1 = sh['x', 0] - sh['y', 0], sh['x', 1] - sh['y', 1]
            if any(v is None for v in sh.values()) or k0 < a.size() or k1 < a.size() or (K is not None and K != (k0, k1)):
                run.res['notes'].append('a quotient of the code does not match that of the property: direct query')
                return run.direct(outs, comp, pre)
            def ext(e, s): return z3.ZeroExt(w - e.size(), e) << V(s, w)
            rr, m = check(pre + [reg, z3.Or(x != z3.If(d, ext(a, sh['x', 1]), ext(a, sh['x', 0])), y != z3.If(d, ext(b, sh['y', 1]), ext(b, sh['y', 0])))], run.left(), run.stats)
            if rr != 'unsat':
                if rr == 'sat' and run.replay([mval(m, q) for q in xs]): return 'violated'
                run.res['notes'].append('operands of the division differ from the expected ones: direct query')
                return run.direct(outs, comp, pre)
            K = (k0, k1)
            if Q is None:
                qw = max(k0, k1) + 2
                Q = z3.BitVec('quot', qw)
                lo = z3.If(d, V(1 << (k1 - 1), qw), V(1 << k0, qw)); hi = z3.If(d, V(1 << k1, qw), V(1 << (k0 + 1), qw))
                facts += [z3.Implies(reg, z3.And(z3.UGE(Q, lo), z3.ULT(Q, hi)))]
            e = z3.ZeroExt(w - Q.size(), Q) if w > Q.size() else z3.Extract(w - 1, 0, Q)
            subs.append((r, z3.If(reg, e, z3.BitVec('otherq!%d' % j, w))))
        if Q is None: return run.direct(outs, comp, pre)
        o2 = [z3.substitute(o, *subs) for o in outs]; c2 = z3.substitute(comp, *subs)
        bad = z3.Not(self.spec2(xs, o2, Q, K[0], K[1]))
        r = run.query(pre + facts + [c2, bad], 'with common quotient')
        if r in ('unsat', 'violated'): return r
        run.res['notes'].append('common quotient: %s; direct query' % r)
        return run.direct(outs, comp, pre)
    shift = Products.shift

# ------------------------------------------------------------------ hardware floating point operations
def fp_apply(op, x, y):
    """the IEEE operation on bit patterns, round to nearest even"""
    w = x.size(); so = z3.Float32() if w == 32 else z3.Float64()
    if op == 'fsqrt': f = z3.fpSqrt(z3.RNE(), z3.fpBVToFP(x, so))
    elif op == 'fremainder': f = z3.fpRem(z3.fpBVToFP(x, so), z3.fpBVToFP(y, so))
    else: f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](z3.RNE(), z3.fpBVToFP(x, so), z3.fpBVToFP(y, so))
    return z3.If(z3.fpIsNaN(f), V(0x7fc00000 if w == 32 else 0x7ff8000000000000, w), z3.fpToIEEEBV(f))

class FloatOps:
    """ops(xs) -> list of (op, X, Y): floating point operations the property speaks about (X, Y bit patterns; a callable of the previous results where it depends on them);
    spec2(xs, outs, rs): the property given their results. The operations of the code and those of the property become unknowns, with the facts that equal operations
    on equal operands have equal results, that NaN operands give NaN and that adding zero changes nothing; if that does not decide the property, they are encoded bit by bit."""
    def __init__(self, ops, spec2): self.ops, self.spec2 = ops, spec2
    def refs(self, xs, res):
        out = []
        for k, (op, x, y) in enumerate(self.ops(xs)):
            x = x(out) if callable(x) else x; y = y(out) if callable(y) else y
            yield op, x, y
            out.append(res(k, op, x, y))
    def full(self, xs, outs):
        rs = []
        def res(k, op, x, y):
            r = fp_apply(op, x, y); rs.append(r); return r
        for _ in self.refs(xs, res): pass
        return self.spec2(xs, outs, rs)
    def decide(self, run, outs, ex, comp, pre):
        g, xs = run.g, run.xs
        fops = []
        mod = llsym.Module(os.path.join(run.d, g.tu.key + '.ll'))
        if g.tu.native_libs: mod.data_from = run.so
        outs, ex, comp = llsym.run_harness(mod, g.fn, g.args64(xs), g.nout, fops=fops)
        rs = []; refs = []; facts = []
        def isz(v): return z3.Extract(v.size() - 2, 0, v) == 0
        def isn(v): return z3.UGT(z3.Extract(v.size() - 2, 0, v), V((0xff << 23) if v.size() == 32 else (0x7ff << 52), v.size() - 1))
        def neg(v): return v ^ V(1 << (v.size() - 1), v.size())
        def about(op, x, y, r):
            """true of every such operation"""
            if op == 'fsub': op, y = 'fadd', neg(y)
            facts.append(z3.Implies(z3.Or(isn(x), isn(y)), isn(r)))
            if op == 'fadd':
                facts.append(z3.Implies(z3.And(isz(x), isz(y)), isz(r)))
                facts.append(z3.Implies(z3.And(isz(x), z3.Not(isz(y)), z3.Not(isn(y))), r == y))
                facts.append(z3.Implies(z3.And(isz(y), z3.Not(isz(x)), z3.Not(isn(x))), r == x))
            return op, x, y, r
        def res(k, op, x, y):
            r = z3.BitVec('fres!%d' % k, x.size()); rs.append(r); refs.append(about(op, x, y, r))
            return r
        for _ in self.refs(xs, res): pass
        allops = list(refs)
        for op, x, y, r in fops:
            op, x, y, r = about(op, x, y, r)
            for o2, X, Y, R in allops:
                if X.size() != x.size(): continue
                same = lambda A, B: z3.And(x == A, y == B)
                if o2 == op: hit = z3.Or(same(X, Y), same(Y, X)) if op in ('fadd', 'fmul') else same(X, Y)
                elif op == 'fadd' and o2 == 'fmul' or op == 'fmul' and o2 == 'fadd':   # x + x is 2 * x
                    two = V(0x40000000 if x.size() == 32 else 0x4000000000000000, x.size())
                    hit = z3.And(x == y, z3.Or(z3.And(X == two, Y == x), z3.And(Y == two, X == x))) if op == 'fadd' else z3.And(X == Y, z3.Or(z3.And(x == two, y == X), z3.And(y == two, x == X)))
                elif op == 'fmul' and o2 == 'fdiv' or op == 'fdiv' and o2 == 'fmul':   # x / 2 is 0.5 * x
                    two, hf = [V(k, x.size()) for k in ((0x40000000, 0x3f000000) if x.size() == 32 else (0x4000000000000000, 0x3fe0000000000000))]
                    mx, my, dx, dy = (x, y, X, Y) if op == 'fmul' else (X, Y, x, y)
                    hit = z3.And(dy == two, z3.Or(z3.And(mx == hf, my == dx), z3.And(my == hf, mx == dx)))
                else: continue
                facts.append(z3.Implies(hit, r == R))
            allops.append((op, x, y, r))
        r = run.query(pre + facts + [comp, z3.Not(self.spec2(xs, outs, rs))], 'with common operations')
        if r in ('unsat', 'violated'): return r
        run.res['notes'].append('common operations: ' + r)
        return self.plain(run)
    def plain(self, run):
        """with the operations bit by bit"""
        g, xs = run.g, run.xs
        outs, ex, comp = llsym.run_harness(llsym.Module(os.path.join(run.d, g.tu.key + '.ll')), g.fn, g.args64(xs), g.nout)
        return run.direct(outs, z3.simplify(comp), [g.presym(xs)])

# ------------------------------------------------------------------ internal equivalence points
class Cut:
    """The property is stated over the decoded operands: spec2(xs, outs, nums, extra) with nums = decode of the operands.
    Nodes of the encoding that compute an exponent or a fraction of an operand are found by simulation, shown equal to the reference decoding
    by the solver, and then, on both sides, replaced by common unknowns (any exponent in range, any fraction): what remains is the arithmetic
    between decoding and result. Operands that are not regular numbers are decided directly.
    inner: a Products/Quotient abstraction builder (nums -> abstraction) applied after the cut.
    cases(nums) -> list of (label, substitution of unknowns | condition) splitting the remaining query."""
    def __init__(self, cfg, idx, spec2, inner=None, cases=None, chunk=None):
        self.c, self.idx, self.spec2, self.inner, self.cases, self.chunk = cfg, idx, spec2, inner, cases, chunk
    def decs(self, xs): return [self.c.dec(xs[i]) for i in self.idx]
    def full(self, xs, outs): return self.spec2(xs, outs, self.decs(xs))
    def hintlist(self, n, v):
        """(reference term, the same over the unknowns)"""
        import oracle as O
        out = []
        for w in (8, 16, 32, 64, 128):
            out.append((O.sx(n.e, w), O.sx(v.e, w)))
            for w2 in (16, 32, 64, 128):
                if w2 > w: out.append((O.zx(O.sx(n.e, w), w2), O.zx(O.sx(v.e, w), w2)))
        for w in sorted({self.c.FT, self.c.H, 2 * self.c.FT, 32, 64}):
            for (m, k) in ((n.m, v.m),):
                for kind in (0, 1):
                    def shape(m):
                        x = m if kind else z3.Extract(m.size() - 2, 0, m)
                        return O.hi(x, w)
                    for base in sorted({w, 2 * w, 32, 64}):
                        if base < w: continue
                        for r in (0, 1, 2):
                            f = lambda m: z3.LShR(O.zx(shape(m), base), V(r, base))
                            out.append((f(m), f(k)))
        return out
    def decide(self, run, outs, ex, comp, pre):
        import oracle as O
        g, xs, c = run.g, run.xs, self.c
        nums = self.decs(xs)
        reg = z3.And(*[n.regular() for n in nums])
        bad = z3.Not(self.full(xs, outs)) if self.inner is None else z3.Not(self.inner.full(xs, outs))
        r0 = 'unsat'
        if not self.chunk or self.chunk[0] == 0: r0 = run.query(pre + [comp, z3.Not(reg), bad], 'special operands')
        if r0 == 'violated': return r0
        # unknowns
        unk = []; facts = []
        for k, n in enumerate(nums):
            e = z3.BitVec('cut_e%d' % k, O.EW); f = z3.BitVec('cut_f%d' % k, n.mw - 1)
            unk.append(O.Num(O.F_, O.F_, O.F_, n.sign, e, z3.Concat(V(1, 1), f)))
            facts += [e >= V(c.minexp, O.EW), e <= V(c.maxexp, O.EW)]
        hints = []; comp_of = {}
        for k, (n, v) in enumerate(zip(nums, unk)):
            for h, u in self.hintlist(n, v):
                hints.append((h, u)); comp_of[u.get_id()] = (k, 'f' if u.get_id() not in () and any(x.eq(v.m.arg(1)) for x in evalz.topo([u])) else 'e')
        rng = random.Random(11)
        vecs = []
        while len(vecs) < 40:
            v = make_vectors(g, rng, 1)[-1]
            if z3.is_true(zero_free(subst_val(z3.And(reg, *pre), xs, v))): vecs.append(v)
        asg = [{x.get_id(): v for x, v in zip(xs, vec)} for vec in vecs]
        exprs = list(outs) + [comp]
        val = evalz.evaluate(exprs + [h for h, _ in hints], asg)
        sig = {}
        for h, u in hints:
            t = val[h.get_id()]
            if t is None or len(set(t)) < 4: continue
            sig.setdefault((h.size(), tuple(t)), (h, u))
        cand = []
        for e in evalz.topo(exprs):
            if not z3.is_bv(e) or z3.is_const(e): continue
            t = val[e.get_id()]
            if t is None: continue
            hit = sig.get((e.size(), tuple(t)))
            if hit is not None: cand.append((e, hit[0], hit[1]))
        ok = []
        if cand:
            r, m = check(pre + [reg, z3.Or(*[e != h for e, h, u in cand])], run.left(), run.stats)
            if r == 'unsat': ok = cand
            else:
                for e, h, u in cand:
                    r, m = check(pre + [reg, e != h], min(20, run.left()), run.stats)
                    if r == 'unsat': ok.append((e, h, u))
        run.res['cuts'] = len(ok)
        if not ok:
            run.res['notes'].append('no internal equivalence points')
            if self.chunk and self.chunk[0]: return 'unknown'
            r1 = self.inner.decide(run, outs, ex, comp, pre) if self.inner else run.direct(outs, comp, pre)
            return r1 if r1 != 'unsat' else r0
        subs = [(e, u) for e, h, u in ok]
        found = {comp_of[u.get_id()] for e, h, u in ok}
        for k, n in enumerate(nums):                 # a component with no equivalence point keeps its reference term
            if (k, 'e') not in found: unk[k].e = n.e
            if (k, 'f') not in found: unk[k].m = n.m
        run.res['cuts'] = '%d nodes, %d of %d components' % (len(ok), len(found), 2 * len(nums))
        o2 = [z3.substitute(o, *subs) for o in outs]; c2 = z3.substitute(comp, *subs)
        regs = [z3.Not(n.zero) for n in nums] + [z3.Not(c.special(xs[i])) for i in self.idx]
        if self.inner is not None:
            r1 = self.inner.decide_cut(run, o2, c2, pre, regs + facts, subs, ex, unk)
        else:
            bad = z3.Not(self.spec2(xs, o2, unk))
            base = pre + regs + facts + [c2, bad]
            r1 = 'unsat'
            cs = self.cases(unk) if self.cases else [('all', [], [])]
            if self.chunk: cs = cs[self.chunk[0]::self.chunk[1]]
            for lab, sb, cnd in cs:
                tq = time.time()
                q = [z3.substitute(a, *sb) for a in base] if sb else list(base)
                r = run.query(q + cnd, 'cut ' + lab)
                if os.environ.get('VERBOSE') == '2': print('      %s %s %.1f' % (lab, r, time.time() - tq), flush=True)
                if r == 'violated': return r
                if r != 'unsat':
                    r1 = r; run.res['notes'].append('case %s: %s' % (lab, r)); break
        if r1 == 'violated': return r1
        if r1 != 'unsat' and not self.chunk:
            run.res['notes'].append('after the cut: %s; direct query' % r1)
            r1 = run.direct(outs, comp, pre)
            if r1 == 'unsat': return 'unsat'
        return r1 if r1 != 'unsat' else r0

# ------------------------------------------------------------------ word level sweeping
class Part:
    """focus(xs): conditions describing these inputs; strict(xs, outs): a condition that on these inputs implies the specification and whose terms are laid
    out so that intermediate results have counterparts in an ordinary implementation (only used to show that the property holds)"""
    def __init__(self, name, focus=None, strict=None, gen=None, hints=None, direct=False):
        self.direct = direct                     # no sweeping: one query
        self.name, self.focus, self.strict, self.gen, self.hints = name, focus, strict, gen, hints

class Sweep:
    """Decide by merging equal nodes of the encoding and the specification (engine/sweep.py), one part of the inputs at a time; what is in no part is queried directly."""
    def __init__(self, spec, focus=None, strict=None, gen=None, budget=90, nvec=80, hints=None, parts=None):
        self.spec, self.budget, self.nvec = spec, budget, nvec
        self.parts = parts or [Part('regular operands', focus, strict, gen, hints)]
    def full(self, xs, outs): return self.spec(xs, outs)
    def decide(self, run, outs, ex, comp, pre):
        g, xs = run.g, run.xs
        bad = z3.Not(self.spec(xs, outs))
        res = 'unsat'
        foci = [z3.And(*p.focus(xs)) if p.focus else z3.BoolVal(True) for p in self.parts]
        if not any(z3.is_true(f) for f in foci):
            r = run.query(pre + [comp, z3.Not(z3.Or(*foci)), bad], 'special operands')
            if r == 'violated': return r
            if r != 'unsat': res = r; run.res['notes'].append('special operands: ' + r)
        left = []
        for p in self.parts:
            r = self.part(p, run, outs, comp, pre, bad)
            if r == 'violated': return r
            if r != 'unsat':
                run.res['notes'].append('%s: %s' % (p.name, r)); res = r if res == 'unsat' else res
        return res
    def part(self, p, run, outs, comp, pre, bad):
        g, xs = run.g, run.xs
        foc = list(p.focus(xs)) if p.focus else []
        if p.direct: return run.query(pre + [comp] + foc + [bad], p.name)
        sbad = z3.Not(p.strict(xs, outs)) if p.strict else bad
        P = pre + [comp] + foc
        rng = random.Random('%s/%s/%s/sweep' % (run.seed, g.name, p.name))
        vecs = []
        cond = z3.And(*P)
        for _ in range(60):
            c = [p.gen(rng) for _ in range(40)] if p.gen else make_vectors(g, rng, 40)[-40:]
            asg = [{x.get_id(): v for x, v in zip(xs, vec)} for vec in c]
            ok = evalz.evaluate([cond], asg)[cond.get_id()]
            if ok is None: break
            vecs += [v for v, o in zip(c, ok) if o]
            if len(vecs) >= self.nvec: break
        if len(vecs) < 8:
            block = []
            for _ in range(8 - len(vecs)):
                r, m = check(P + block, min(20, run.left()), run.stats)
                if r == 'unsat' and not vecs: return 'unsat'
                if r != 'sat': break
                v = [mval(m, x) for x in xs]; vecs.append(v)
                block.append(z3.Or(*[x != V(a, x.size()) for x, a in zip(xs, v)]))
            if not vecs: return run.direct(outs, comp, pre + foc)
        Ps = [z3.simplify(q) for q in P]
        seen = [0]
        def on_cex(v):
            seen[0] += 1
            return seen[0] <= 60 and run.replay(v, more=False)
        end = min(time.time() + max(self.budget, .35 * run.left()), run.deadline - 5)
        nr, info = sweeping.sweep([sbad], Ps, xs, vecs, lambda a, t: check(a, t, run.stats), end, on_cex, p.hints(xs) if p.hints else ())
        run.res['cuts'] = (run.res.get('cuts', '') + ' %d/%d merged, %d refuted, %d open' % (info['merged'], info['tried'], info['refuted'], info['unknown'])).strip()
        if nr is None: return 'violated'
        r, m = check(P + nr, run.left(), run.stats)
        if r == 'unsat': return r
        if r == 'sat':
            if run.replay([mval(m, x) for x in xs]): return 'violated'
            if p.strict is None: run.res['notes'].append('model of the swept query not confirmed')
        if r == 'unknown' and p.strict is None and run.left() > 10:
            c = cvc5_check([z3.simplify(a) for a in P + nr], run.left())
            run.stats.cvc5 += 1
            if c == 'unsat': return c
        if r == 'sat' or info['unknown']: return run.direct(outs, comp, pre + foc)
        return r

# ------------------------------------------------------------------ running a property
def build_all(tus, d, jobs=8):
    procs = []; todo = []
    seen = set()
    for t in tus:
        if t.key not in seen:
            seen.add(t.key); todo.append((t, 'ir', t.ir_cmd(d)))
        if t.nkey + 'n' not in seen:
            seen.add(t.nkey + 'n'); todo.append((t, 'so', t.so_cmd(d)))
    errs = {}
    run = []
    while todo or run:
        while todo and len(run) < jobs:
            t, k, c = todo.pop(0)
            run.append((t, k, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        t, k, p = run.pop(0)
        e = p.communicate()[1]
        if p.returncode != 0: errs[t.key if k == 'ir' else t.nkey + 'n'] = e.decode(errors='replace')[-1500:]
    for t in tus:
        t.error = errs.get(t.key) or errs.get(t.nkey + 'n')
    return errs

def run_goals(goals, d, seed, jobs, per_goal, total, stop=lambda r: False):
    """one forked process per goal, at most `jobs` at a time, the cheap ones first; nothing is started any more once stop(result) holds"""
    order = sorted(range(len(goals)), key=lambda i: goals[i].weight)
    stopped = None
    active = {}; results = {}
    t_end = time.time() + total
    def start(i):
        path = os.path.join(d, 'res%d.json' % i)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
                except Exception: pass
                sys.setrecursionlimit(100000)
                r = GoalRun(goals[i], d, seed, min(max(per_goal, goals[i].long), max(5, t_end - time.time() - 5))).run()
                with open(path + '.t', 'w') as f: json.dump(r, f)
                os.rename(path + '.t', path)
            except BaseException:
                with open(path + '.err', 'w') as f: f.write(traceback.format_exc())
                code = 1
            os._exit(code)
        active[pid] = (i, time.time(), path)
    while order or active:
        while order and len(active) < jobs and time.time() < t_end: start(order.pop(0))
        if not active: break
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            for p, (i, t, path) in list(active.items()):
                if time.time() - t > max(per_goal, goals[i].long) + 30 or time.time() > t_end:
                    try: os.killpg(p, signal.SIGKILL)
                    except OSError:
                        try: os.kill(p, signal.SIGKILL)
                        except OSError: pass
            continue
        if pid not in active: continue
        i, t, path = active.pop(pid)
        if os.path.exists(path):
            with open(path) as f: results[i] = json.load(f)
        else:
            err = open(path + '.err').read()[-800:] if os.path.exists(path + '.err') else 'ended after %.0f s' % (time.time() - t)
            results[i] = dict(goal=goals[i].name, fn=goals[i].fn, status='undecided', notes=[err], violations=[], validated=0, mismatches=0, states=0, transitions=0, instr=0, funcs=[], unwind=0,
                              queries=0, unsat=0, sat=0, unknown=0, cvc5=0, solver_s=0, wall=time.time() - t, replays=0)
        if not stopped and results[i]['violations'] and stop(results[i]):
            stopped = True; t_end = min(t_end, time.time() + 2)
        if os.environ.get('VERBOSE'):
            r = results[i]
            print('  %-50s %-10s q=%d solver=%.1fs wall=%.1fs [%s] %s' % (goals[i].name, r['status'], r.get('queries', 0), r.get('solver_s', 0), r.get('wall', 0), r.get('cuts', ''), '; '.join(n[-150:].replace(chr(10), ' ') for n in r['notes'][:3])), flush=True)
    for i in order:
        results[i] = dict(goal=goals[i].name, fn=goals[i].fn, status='undecided', notes=['not run: violation found' if stopped else 'time budget used up'], violations=[], validated=0, mismatches=0, states=0, transitions=0, instr=0, funcs=[], unwind=0,
                          queries=0, unsat=0, sat=0, unknown=0, cvc5=0, solver_s=0, wall=0, replays=0)
    return [results[i] for i in range(len(goals))]
