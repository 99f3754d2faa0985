"""Symbolic executor for LLVM IR (textual, clang 18) over z3 bit-vectors.

Every function of a harness is executed once, for all inputs: control flow is merged (phi and memory
become if-then-else terms), loops are unrolled until the solver shows that no execution can take the
back edge again (or the stated bound is reached, which is itself an obligation), calls are executed in place.
Reachable llvm.ubsantrap / llvm.trap / unreachable become obligations of their own (condition under which
the C++ program would execute undefined behaviour instrumented by -fsanitize-trap).
"""
import re, sys
import z3

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'e', 'packed')
    def __init__(self, k, n=0, e=None, packed=False):
        self.k, self.n, self.e, self.packed = k, n, e, packed
    def __repr__(self):
        return '%s%s' % (self.k, self.n if self.k == 'i' else '')

TVOID, TPTR, TFLOAT, TDOUBLE, TLABEL, TMETA = Ty('void'), Ty('ptr'), Ty('float'), Ty('double'), Ty('label'), Ty('metadata')

TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|([%@]"(?:[^"\\]|\\.)*")|([%@!$#][-a-zA-Z$._0-9]*)|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d+(?:e[+-]?\d+)?)|(-?\d+)|([a-zA-Z_][a-zA-Z0-9_.]*)|(\.\.\.)|([\[\]{}()<>,=*:!|]))''')

def tokenize(s):
    out, p = [], 0
    n = len(s)
    while p < n:
        if s[p] in ' \t':
            p += 1
            continue
        if s[p] == ';':
            break
        m = TOK.match(s, p)
        if not m:
            raise Unsupported('token: ' + s[p:p + 40])
        out.append(m.group(m.lastindex))
        p = m.end()
    return out

ATTRW = set('''noundef nonnull nocapture readonly writeonly readnone nofree nosync nounwind willreturn zeroext signext inreg
noalias returned immarg nest swiftself swifterror allocptr noreturn norecurse mustprogress local_unnamed_addr unnamed_addr
dso_local internal linkonce_odr private weak_odr weak linkonce external available_externally hidden protected default
inlinehint fastcc ccc tail musttail notail nsw nuw exact inbounds disjoint nneg fast nnan ninf nsz arcp contract afn reassoc
volatile thread_local constant global common appending preallocated allocalign builtin writable dead_on_unwind'''.split())

class P:
    """token stream"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t
    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        t = self.next()
        if t != x:
            raise Unsupported('expected %r got %r in %s' % (x, t, ' '.join(self.t)))
    def skip_attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t in ATTRW:
                self.i += 1
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'memory', 'captures', 'initializes', 'elementtype', 'addrspace', 'comdat', 'allocsize'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        u = self.next()
                        if u == '(':
                            d += 1
                        elif u == ')':
                            d -= 1
                            if d == 0:
                                break
                elif t == 'align':
                    self.i += 1
            elif t.startswith('#') and len(t) > 1:
                self.i += 1
            elif t.startswith('"'):
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return
    def type(self):
        t = self.next()
        if t == 'void': r = TVOID
        elif t == 'ptr': r = TPTR
        elif t == 'float': r = TFLOAT
        elif t == 'double': r = TDOUBLE
        elif t == 'label': r = TLABEL
        elif t == 'metadata': r = TMETA
        elif re.match(r'i\d+$', t): r = Ty('i', int(t[1:]))
        elif t in ('half', 'x86_fp80', 'fp128', 'bfloat'): r = Ty(t)
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            r = Ty('arr', n, e)
        elif t == '<':
            if self.accept('{'):
                es = []
                if not self.accept('}'):
                    while True:
                        es.append(self.type())
                        if self.accept('}'): break
                        self.expect(',')
                self.expect('>')
                r = Ty('struct', len(es), es, True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                r = Ty('vec', n, e)
        elif t == '{':
            es = []
            if not self.accept('}'):
                while True:
                    es.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            r = Ty('struct', len(es), es)
        elif t.startswith('%'):
            r = self.m.named(t)
        else:
            raise Unsupported('type ' + t)
        if self.peek() == 'addrspace':
            self.next(); self.next(); self.next(); self.next()
        if self.peek() == '(':      # function type
            d = 0
            while True:
                u = self.next()
                if u == '(': d += 1
                elif u == ')':
                    d -= 1
                    if d == 0: break
            r = Ty('fn', 0, r)
        return r

def sizeof(t):
    if t.k == 'i': return (t.n + 7) // 8 if t.n <= 64 else 16 * ((t.n + 127) // 128)
    if t.k == 'ptr': return 8
    if t.k == 'float': return 4
    if t.k == 'double': return 8
    if t.k in ('arr',): return t.n * sizeof(t.e)
    if t.k == 'vec': return t.n * sizeof(t.e)
    if t.k == 'struct':
        o = 0
        for e in t.e:
            if not t.packed:
                a = alignof(e); o = (o + a - 1) // a * a
            o += sizeof(e)
        if not t.packed:
            a = alignof(t); o = (o + a - 1) // a * a
        return o
    if t.k == 'opaque': return 0
    raise Unsupported('sizeof ' + t.k)

def alignof(t):
    if t.k == 'arr': return alignof(t.e)
    if t.k == 'struct': return 1 if t.packed else max([alignof(e) for e in t.e] or [1])
    return max(1, min(16, sizeof(t)))

def field_off(t, i):
    o = 0
    for j, e in enumerate(t.e):
        if not t.packed:
            a = alignof(e); o = (o + a - 1) // a * a
        if j == i: return o
        o += sizeof(e)
    raise Unsupported('field')

# ------------------------------------------------------------------ constants (operands)
# operand: ('v', name) | ('c', ty, pyint) | ('f', ty, bits) | ('undef', ty) | ('zero', ty) | ('null',) | ('g', name)
#          | ('agg', ty, [operands]) | ('ce', op, ...) | ('str', bytes)
import struct as _st

def parse_value(p, ty):
    t = p.next()
    if t.startswith('%'): return ('v', t)
    if t.startswith('@'): return ('g', t)
    if t in ('true', 'false'): return ('c', ty, 1 if t == 'true' else 0)
    if t in ('undef', 'poison'): return ('undef', ty)
    if t == 'zeroinitializer': return ('zero', ty)
    if t == 'null': return ('null',)
    if t == 'none': return ('undef', ty)
    if t.startswith('c"'):
        s = t[2:-1]; b = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                b.append(ord(s[i])); i += 1
        return ('str', bytes(b))
    if ty.k in ('float', 'double'):
        if t.startswith('0x'):
            d = _st.unpack('<d', int(t[2:], 16).to_bytes(8, 'little'))[0]
            raw = int(t[2:], 16)
        else:
            d = float(t); raw = int.from_bytes(_st.pack('<d', d), 'little')
        if ty.k == 'double': return ('f', ty, raw)
        if d != d: return ('f', ty, ((raw >> 63) << 31) | 0x7f800000 | ((raw >> 29) & 0x7fffff))
        return ('f', ty, int.from_bytes(_st.pack('<f', d), 'little'))
    if re.match(r'-?\d+$', t): return ('c', ty, int(t))
    if t in ('[', '<', '{'):
        close = {'[': ']', '<': '>', '{': '}'}[t]
        packed = False
        if t == '<' and p.accept('{'):
            close = '}'; packed = True
        es = []
        if not p.accept(close):
            while True:
                et = p.type(); es.append(parse_value(p, et))
                if p.accept(close): break
                p.expect(',')
        if packed: p.expect('>')
        return ('agg', ty, es)
    if t == 'getelementptr':
        while p.peek() in ATTRW or p.peek() == 'inrange': p.next()
        p.expect('(')
        bt = p.type(); p.expect(','); pt = p.type(); base = parse_value(p, pt)
        idx = []
        while p.accept(','):
            while p.peek() in ATTRW or p.peek() == 'inrange': p.next()
            it = p.type(); idx.append((it, parse_value(p, it)))
        p.expect(')')
        return ('ce', 'gep', bt, base, idx)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'add', 'sub', 'icmp'):
        raise Unsupported('constexpr ' + t)
    raise Unsupported('value ' + t)

# ------------------------------------------------------------------ module
class Instr:
    __slots__ = ('dst', 'op', 'a', 'line')
    def __init__(self, dst, op, a, line):
        self.dst, self.op, self.a, self.line = dst, op, a, line

class Block:
    def __init__(self, name):
        self.name, self.phis, self.ins, self.term = name, [], [], None
        self.succ = []

class Func:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.order = name, [], {}, []
        self.raw = None
        self.prepared = False

def bits_of(e):
    """the bits of an index expression, lowest first, each 0, 1 or a one bit term; sums of terms without common bits are taken apart"""
    w = e.size()
    k = e.decl().kind()
    if z3.is_bv_value(e):
        v = e.as_long(); return [(v >> i) & 1 for i in range(w)]
    if k == z3.Z3_OP_CONCAT: return [b for c in reversed(e.children()) for b in bits_of(c)]
    if k == z3.Z3_OP_ZERO_EXT: return (bits_of(e.arg(0)) + [0] * w)[:w]
    if k == z3.Z3_OP_SIGN_EXT:
        b = bits_of(e.arg(0)); return b + [b[-1]] * (w - len(b))
    if k == z3.Z3_OP_EXTRACT:
        h, l = e.params(); return bits_of(e.arg(0))[l:h + 1]
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        r = bits_of(e.arg(0))
        for c in e.children()[1:]:
            r2 = bits_of(c)
            if any(not (is0(x) or is0(y)) for x, y in zip(r, r2)): r = None; break
            r = [y if is0(x) else x for x, y in zip(r, r2)]
        if r is not None: return r
    if k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        v = e.arg(0).as_long()
        if v and v & (v - 1) == 0:
            t = v.bit_length() - 1
            return ([0] * t + bits_of(e.arg(1)))[:w]
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        t = min(w, e.arg(1).as_long())
        return ([0] * t + bits_of(e.arg(0)))[:w]
    return [z3.Extract(i, i, e) for i in range(w)]

class TableCells(dict):
    """cells of a table read on demand"""
    def __init__(self, b, sz): self.b, self.sz = b, sz
    def get(self, i, default=None):
        if i % self.sz or not 0 <= i <= len(self.b) - self.sz: return default
        return (self.sz, int.from_bytes(self.b[i:i + self.sz], 'little'))
    def __contains__(self, i): return self.get(i) is not None
    def __getitem__(self, i):
        r = self.get(i)
        if r is None: raise KeyError(i)
        return r

def is0(b): return isinstance(b, int) and b == 0

def elf_symbol(path, name):
    """bytes of a data symbol of a shared object (64 bit ELF)"""
    import struct, subprocess
    for l in subprocess.run(['nm', '-S', '--defined-only', path], capture_output=True, text=True).stdout.split('\n'):
        t = l.split()
        if len(t) == 4 and t[3] == name: break
    else: return None
    addr, size, bss = int(t[0], 16), int(t[1], 16), t[2] in 'bB'
    if bss: return bytes(size)
    with open(path, 'rb') as f: d = f.read()
    phoff, = struct.unpack_from('<Q', d, 32); es, n = struct.unpack_from('<HH', d, 54)
    for i in range(n):
        ty, fl, off, va, pa, fs, ms, al = struct.unpack_from('<IIQQQQQQ', d, phoff + i * es)
        if ty == 1 and va <= addr and addr + size <= va + fs: return d[off + addr - va:off + addr - va + size]
    return None

class Module:
    def __init__(self, path):
        self.types, self.globals, self.funcs = {}, {}, {}
        self._rawtypes = {}
        self.path = path
        self.data_from = None            # shared object that holds the data of external globals (generated tables)
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, b = l.split(' = type ', 1)
                self._rawtypes[n.strip()] = b
            elif l.startswith('@'):
                n = l.split(' =', 1)[0]
                self.globals[n] = [l, None]
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'(@"[^"]+"|@[-a-zA-Z$._0-9]+)\(', l)
                f = Func(m.group(1)); f.raw = (l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            i += 1
    def named(self, n):
        if n in self.types: return self.types[n]
        b = self._rawtypes.get(n)
        if b is None: raise Unsupported('type ' + n)
        if b.strip() == 'opaque':
            self.types[n] = Ty('opaque')
        else:
            self.types[n] = P(self, tokenize(b)).type()
        return self.types[n]
    def func(self, name):
        f = self.funcs[name]
        if not f.prepared: self._parse(f)
        return f
    def global_init(self, name):
        g = self.globals[name]
        if g[1] is None:
            toks = tokenize(g[0])
            p = P(self, toks)
            p.next(); p.expect('=')
            ext = 'external' in toks[:8]
            const = 'constant' in toks[:10]
            while p.peek() in ATTRW or p.peek() == 'addrspace' or p.peek() == '(' or (p.peek() or '').startswith('"'):
                if p.peek() == '(':
                    while p.next() != ')': pass
                else: p.next()
            ty = p.type()
            init = None if ext else parse_value(p, ty)
            g[1] = (ty, init, const)
        return g[1]

    def _parse(self, f):
        head, body = f.raw
        p = P(self, tokenize(head[7:].rstrip('{').rstrip()))
        while p.peek() != f.name:
            p.next()
        p.next(); p.expect('(')
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')'); break
                ty = p.type(); p.skip_attrs()
                f.params.append((ty, p.next()))
                if p.accept(')'): break
                p.expect(',')
        n = len(f.params)
        cur = Block('%' + str(n))
        # numbering: unnamed entry block takes the next number after params (if params unnamed)
        f.blocks[cur.name] = cur; f.order.append(cur.name)
        first = True
        buf = None
        for l in body:
            s = l.strip()
            if not s or s.startswith(';') or s.startswith('#dbg'): continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]+"):', l)
            if m:
                nm = '%' + m.group(1)
                if first and not cur.ins and not cur.phis:
                    f.blocks.clear(); f.order.clear()
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); first = False
                continue
            first = False
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    s = buf; buf = None
                else: continue
            elif s.startswith('switch ') and not s.rstrip().endswith(']'):
                buf = s
                continue
            self._instr(f, cur, s)
        for b in f.blocks.values():
            b.succ = [x for x in dict.fromkeys(succs(b.term))]
        f.prepared = True
        prepare_cfg(f)

    def _instr(self, f, b, s):
        s0 = s
        s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
        s = re.sub(r', !srcloc.*', '', s)
        toks = tokenize(s)
        p = P(self, toks)
        dst = None
        if len(toks) > 1 and toks[1] == '=' and toks[0].startswith('%'):
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        def tv():
            ty = p.type(); p.skip_attrs(); return (ty, parse_value(p, ty))
        def flags():
            while p.peek() in ATTRW: p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags(); ty = p.type(); x = parse_value(p, ty); p.expect(','); y = parse_value(p, ty)
            b.ins.append(Instr(dst, op, (ty, x, y), s0))
        elif op in ('icmp', 'fcmp'):
            flags(); pred = p.next(); ty = p.type(); x = parse_value(p, ty); p.expect(','); y = parse_value(p, ty)
            b.ins.append(Instr(dst, op, (pred, ty, x, y), s0))
        elif op == 'fneg':
            flags(); ty = p.type(); x = parse_value(p, ty)
            b.ins.append(Instr(dst, op, (ty, x), s0))
        elif op == 'select':
            flags(); c = tv(); p.expect(','); x = tv(); p.expect(','); y = tv()
            b.ins.append(Instr(dst, op, (c, x, y), s0))
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            flags(); x = tv(); p.expect('to'); ty = p.type()
            b.ins.append(Instr(dst, op, (x, ty), s0))
        elif op == 'freeze':
            x = tv(); b.ins.append(Instr(dst, op, (x,), s0))
        elif op == 'phi':
            flags(); ty = p.type(); inc = []
            while True:
                p.expect('['); v = parse_value(p, ty); p.expect(','); lb = p.next(); p.expect(']')
                inc.append((v, lb))
                if not p.accept(','): break
            b.phis.append(Instr(dst, op, (ty, inc), s0))
        elif op == 'load':
            if p.peek() == 'atomic': p.next()
            flags(); ty = p.type(); p.expect(','); x = tv()
            b.ins.append(Instr(dst, op, (ty, x[1]), s0))
        elif op == 'store':
            if p.peek() == 'atomic': p.next()
            flags(); v = tv(); p.expect(','); x = tv()
            b.ins.append(Instr(None, op, (v, x[1]), s0))
        elif op == 'getelementptr':
            flags(); bt = p.type(); p.expect(','); x = tv(); idx = []
            while p.accept(','):
                idx.append(tv())
            b.ins.append(Instr(dst, 'gep', (bt, x[1], idx), s0))
        elif op == 'alloca':
            flags(); ty = p.type(); cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    cnt = tv()
            b.ins.append(Instr(dst, op, (ty, cnt), s0))
        elif op == 'extractvalue':
            x = tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            b.ins.append(Instr(dst, op, (x, idx), s0))
        elif op == 'insertvalue':
            x = tv(); p.expect(','); y = tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            b.ins.append(Instr(dst, op, (x, y, idx), s0))
        elif op in ('extractelement', 'insertelement', 'shufflevector'):
            a = [tv()]
            while p.accept(','): a.append(tv())
            b.ins.append(Instr(dst, op, tuple(a), s0))
        elif op in ('call', 'invoke'):
            flags(); p.skip_attrs()
            rt = p.type()
            if rt.k == 'fn': rt = rt.e
            p.skip_attrs()
            callee = p.next(); args = []
            p.expect('(')
            if not p.accept(')'):
                while True:
                    ty = p.type()
                    if ty.k == 'metadata':
                        while p.peek() not in (',', ')'): p.next()
                        args.append((ty, None))
                    else:
                        p.skip_attrs(); args.append((ty, parse_value(p, ty)))
                    if p.accept(')'): break
                    p.expect(',')
            ins = Instr(dst, 'call', (rt, callee, args), s0)
            b.ins.append(ins)
            if op == 'invoke':
                while p.next() != 'to': pass
                p.expect('label'); b.term = ('br', p.next())
        elif op == 'br':
            if p.accept('label'): b.term = ('br', p.next())
            else:
                c = tv(); p.expect(','); p.expect('label'); x = p.next(); p.expect(','); p.expect('label'); y = p.next()
                b.term = ('cbr', c[1], x, y)
        elif op == 'switch':
            v = tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.accept(']'):
                c = tv(); p.expect(','); p.expect('label'); cases.append((c[1], p.next()))
            b.term = ('switch', v, d, cases)
        elif op == 'ret':
            if p.peek() == 'void': b.term = ('ret', None)
            else: b.term = ('ret', tv())
        elif op == 'unreachable':
            b.term = ('unreachable',)
        else:
            b.ins.append(Instr(dst, 'unsupported', (op,), s0))
            if op in ('indirectbr', 'resume', 'callbr'): b.term = ('unreachable',)

def succs(t):
    if t is None: return []
    if t[0] == 'br': return [t[1]]
    if t[0] == 'cbr': return [t[2], t[3]]
    if t[0] == 'switch': return [t[2]] + [x[1] for x in t[3]]
    return []

def ops_of(o):
    """names used by an operand structure"""
    if isinstance(o, tuple):
        if len(o) == 2 and o[0] == 'v' and isinstance(o[1], str):
            yield o[1]
        else:
            for x in o:
                if isinstance(x, (tuple, list)):
                    yield from ops_of(x)
    elif isinstance(o, list):
        for x in o:
            yield from ops_of(x)

def prepare_cfg(f):
    """weak topological order (Bourdoncle) and liveness"""
    sys.setrecursionlimit(100000)
    entry = f.order[0]
    # Bourdoncle WTO
    dfn, num, stack, order = {}, [0], [], []
    INF = 1 << 60
    def visit(v, part):
        stack.append(v); num[0] += 1; dfn[v] = num[0]; head = num[0]; loop = False
        for s in f.blocks[v].succ:
            m = visit(s, part) if dfn.get(s, 0) == 0 else dfn[s]
            if m <= head: head = m; loop = True
        if head == dfn[v]:
            dfn[v] = INF
            el = stack.pop()
            if loop:
                while el != v:
                    dfn[el] = 0; el = stack.pop()
                sub = []
                for s in f.blocks[v].succ:
                    if dfn.get(s, 0) == 0: visit(s, sub)
                part.append([v] + sub[::-1])
            else:
                part.append(v)
        return head
    top = []
    visit(entry, top)
    def flat(x):
        for y in x:
            if isinstance(y, list): yield from flat(y)
            else: yield y
    f.wto = {b: i for i, b in enumerate(flat(top[::-1]))}
    # loop headers: first elements of nested lists
    f.heads = set()
    def heads(x):
        for y in x:
            if isinstance(y, list):
                f.heads.add(y[0]); heads(y)
    heads(top)
    # liveness
    use, deff = {}, {}
    for b in f.blocks.values():
        u, d = set(), set()
        for i in b.phis: d.add(i.dst)
        for i in b.ins:
            for n in ops_of(i.a):
                if n not in d: u.add(n)
            if i.dst: d.add(i.dst)
        for n in ops_of(b.term or ()):
            if n not in d: u.add(n)
        use[b.name], deff[b.name] = u, d
    livein = {b: set() for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for bn in reversed(f.order):
            b = f.blocks[bn]
            out = set()
            for s in b.succ:
                out |= livein[s] - {i.dst for i in f.blocks[s].phis}
                for i in f.blocks[s].phis:
                    for v, lb in i.a[1]:
                        if lb == bn: out |= set(ops_of(v))
            n = use[bn] | (out - deff[bn])
            if n != livein[bn]:
                livein[bn] = n; ch = True
    f.livein = {b: livein[b] | {i.dst for i in f.blocks[b].phis} for b in f.blocks}

# ------------------------------------------------------------------ executor
BV, BVV = z3.BitVec, z3.BitVecVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def is_t(c): return z3.is_true(c)
def is_f(c): return z3.is_false(c)
def And(a, b):
    if is_f(a) or is_f(b): return FALSE
    if is_t(a): return b
    if is_t(b): return a
    if a.eq(b): return a
    return z3.And(a, b)
def Or(a, b):
    if is_t(a) or is_t(b): return TRUE
    if is_f(a): return b
    if is_f(b): return a
    if a.eq(b): return a
    # (c and x) or (c and not x) -> c
    if z3.is_and(a) and z3.is_and(b) and a.num_args() == 2 and b.num_args() == 2 and a.arg(0).eq(b.arg(0)):
        x, y = a.arg(1), b.arg(1)
        if z3.is_not(x) and x.arg(0).eq(y) or z3.is_not(y) and y.arg(0).eq(x): return a.arg(0)
    if z3.is_not(a) and a.arg(0).eq(b) or z3.is_not(b) and b.arg(0).eq(a): return TRUE
    return z3.Or(a, b)
def Not(a):
    if is_t(a): return FALSE
    if is_f(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def num(x):
    return x.as_long() if z3.is_bv_value(x) else None
def Ite(c, a, b):
    if is_t(c): return a
    if is_f(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if is_t(a) and is_f(b): return c
        if is_f(a) and is_t(b): return Not(c)
    return z3.If(c, a, b)

def fold(e):
    """constant-fold when every argument is a numeral"""
    for i in range(e.num_args()):
        a = e.arg(i)
        if not (z3.is_bv_value(a) or z3.is_true(a) or z3.is_false(a)): return e
    return z3.simplify(e)

class Ptr:
    """guarded set of (cond, object id, offset); offset is int or BV64"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def eq(self, o):
        return isinstance(o, Ptr) and len(self.alts) == len(o.alts) and all(
            a[0].eq(b[0]) and a[1] == b[1] and (a[2] == b[2] if isinstance(a[2], int) and isinstance(b[2], int) else (not isinstance(a[2], int) and not isinstance(b[2], int) and a[2].eq(b[2])))
            for a, b in zip(self.alts, o.alts))

def same(a, b):
    if a is b: return True
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.eq(b)
    if a is None or b is None: return False
    return a.sort() == b.sort() and a.eq(b)

def merge_val(c, a, b):
    """c ? a : b"""
    if a is None: return b
    if b is None: return a
    if same(a, b): return a
    if isinstance(a, list): return [merge_val(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Ptr):
        out = []
        for g, o, f in a.alts: out.append((And(c, g), o, f))
        for g, o, f in b.alts: out.append((And(Not(c), g), o, f))
        return Ptr(out)
    return Ite(c, a, b)

class Obj:
    """memory object: cells {offset: (size, value)} non overlapping"""
    __slots__ = ('size', 'cells', 'const', 'name')
    def __init__(self, size, name='', const=None):
        self.size, self.cells, self.const, self.name = size, {}, const, name
    def copy(self):
        o = Obj(self.size, self.name, self.const); o.cells = dict(self.cells); return o

class State:
    __slots__ = ('cond', 'env', 'mem', 'fwd')
    def __init__(self, cond, env, mem, fwd=True): self.cond, self.env, self.mem, self.fwd = cond, env, mem, fwd

class Exec:
    def __init__(self, mod, unwind=130, loop_solver_from=8, max_steps=200000, fops=None):
        self.fops = fops           # a list: floating point operations are left as unknowns and recorded here
        self.mod = mod
        self.traps = []            # (condition, description)
        self.unwound = []          # conditions of loops cut at the bound
        self.funcs = {}            # executed functions -> times
        self.nblocks = 0; self.nedges = 0; self.ninstr = 0
        self.nfresh = 0
        self.unwind, self.loop_solver_from = unwind, loop_solver_from
        self.gobj = {}
        self.oid = 0
        self.muls = []             # (result term, x, y) symbolic products
        self.divs = []             # (op, result term, x, y)
        self.maxiter = 0
        self.assume = []
        self.max_steps = max_steps
        self.mul_hook = None
        self.div_hook = None
        self.float_cast_ub = []

    def fresh(self, n, what='undef'):
        self.nfresh += 1
        if n == 1: return z3.Bool('%s!%d' % (what, self.nfresh))
        return BV('%s!%d' % (what, self.nfresh), n)
    def fresh_ty(self, ty):
        if ty.k == 'i': return self.fresh(ty.n)
        if ty.k == 'float': return self.fresh(32)
        if ty.k == 'double': return self.fresh(64)
        if ty.k == 'ptr': return Ptr([])
        if ty.k == 'struct': return [self.fresh_ty(e) for e in ty.e]
        if ty.k in ('arr', 'vec'): return [self.fresh_ty(ty.e) for _ in range(ty.n)]
        raise Unsupported('undef ' + ty.k)
    def zero_ty(self, ty):
        if ty.k == 'i': return FALSE if ty.n == 1 else BVV(0, ty.n)
        if ty.k == 'float': return BVV(0, 32)
        if ty.k == 'double': return BVV(0, 64)
        if ty.k == 'ptr': return Ptr([])
        if ty.k == 'struct': return [self.zero_ty(e) for e in ty.e]
        if ty.k in ('arr', 'vec'): return [self.zero_ty(ty.e) for _ in range(ty.n)]
        raise Unsupported('zero ' + ty.k)

    # ---- objects
    def new_obj(self, mem, size, name=''):
        self.oid += 1
        mem[self.oid] = Obj(size, name)
        return self.oid
    def global_obj(self, name):
        if name in self.gobj: return self.gobj[name]
        ty, init, const = self.mod.global_init(name)
        self.oid += 1
        o = Obj(sizeof(ty), name)
        if init is None:
            b = elf_symbol(self.mod.data_from, name[1:]) if self.mod.data_from else None
            if b is None or ty.k != 'arr' or ty.e.k != 'i': raise Unsupported('external global ' + name)
            sz = sizeof(ty.e)
            o.size = len(b)
            o.cells = TableCells(b, sz)
            self.gobj[name] = self.oid
            self.gdata = getattr(self, 'gdata', {})
            self.gdata[self.oid] = o
            return self.oid
        # flat constant content, as python ints per element when homogeneous
        o.const = (ty, init)
        self.gobj[name] = self.oid
        self.gdata = getattr(self, 'gdata', {})
        self.gdata[self.oid] = o
        self._fill(o, 0, ty, init)
        return self.oid
    def _fill(self, o, off, ty, init):
        if init[0] == 'agg':
            if ty.k == 'struct':
                for i, v in enumerate(init[2]): self._fill(o, off + field_off(ty, i), ty.e[i], v)
            else:
                sz = sizeof(ty.e)
                for i, v in enumerate(init[2]): self._fill(o, off + i * sz, ty.e, v)
        elif init[0] == 'str':
            for i, c in enumerate(init[1]): o.cells[off + i] = (1, c)
        elif init[0] == 'zero' and ty.k in ('arr', 'struct', 'vec'):
            if ty.k == 'struct':
                for i, e in enumerate(ty.e): self._fill(o, off + field_off(ty, i), e, ('zero', e))
            else:
                sz = sizeof(ty.e)
                for i in range(ty.n): self._fill(o, off + i * sz, ty.e, ('zero', ty.e))
        elif init[0] == 'c': o.cells[off] = (sizeof(ty), init[2] & ((1 << (8 * sizeof(ty))) - 1))
        elif init[0] == 'f': o.cells[off] = (sizeof(ty), init[2])
        elif init[0] == 'zero': o.cells[off] = (sizeof(ty), 0)
        elif init[0] == 'undef': pass
        else: o.cells[off] = (sizeof(ty), init)     # pointers: resolved on load

    def obj(self, st, oid):
        return st.mem[oid] if oid in st.mem else self.gdata[oid]

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:                       # writable global: copy into the state
            g = self.gdata[oid]
            if isinstance(g.cells, TableCells): raise Unsupported('write to ' + g.name)
            o = Obj(g.size, g.name); o.cells = dict(g.cells)
        else:
            o = o.copy()
        st.mem[oid] = o
        return o

    # ---- bytes
    def _lift(self, v, size):
        if isinstance(v, int): return BVV(v, size * 8)
        return v
    def byte_at(self, o, off):
        for s in range(off, max(-1, off - 16), -1):
            c = o.cells.get(s)
            if c is not None:
                if s + c[0] > off:
                    v = c[1]
                    if isinstance(v, Ptr): raise Unsupported('byte of pointer')
                    if isinstance(v, tuple): raise Unsupported('byte of pointer constant')
                    v = self._lift(v, c[0])
                    k = off - s
                    return fold(z3.Extract(8 * k + 7, 8 * k, v))
                return None
        return None
    def read_cell(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, tuple): return self.const_ptr(v)
            return self._lift(v, size) if not isinstance(v, Ptr) else v
        bs = []
        for i in range(size):
            b = self.byte_at(o, off + i)
            bs.append(self.fresh(8, 'uninit') if b is None else b)
        if size == 1: return bs[0]
        return z3.simplify(z3.Concat(*bs[::-1]))
    def const_ptr(self, v):
        if v[0] == 'g': return Ptr([(TRUE, self.global_obj(v[1]), 0)])
        if v[0] == 'null': return Ptr([])
        raise Unsupported('pointer constant')
    def write_cell(self, o, off, size, v):
        # split overlapped cells
        for s in range(off - 15, off + size):
            c = o.cells.get(s)
            if c is None: continue
            if s + c[0] <= off: continue
            if s >= off and s + c[0] <= off + size:
                del o.cells[s]; continue
            bs = [(s + k, self.byte_at(o, s + k)) for k in range(c[0])]
            del o.cells[s]
            for a, b in bs:
                if not (off <= a < off + size): o.cells[a] = (1, b)
        o.cells[off] = (size, v)

    def to_mem(self, ty, v):
        """list of (offset,size,value) of a first class value"""
        if ty.k == 'i':
            sz = sizeof(ty)
            if ty.n == 1: return [(0, 1, z3.If(v, BVV(1, 8), BVV(0, 8)) if not (is_t(v) or is_f(v)) else BVV(1 if is_t(v) else 0, 8))]
            if ty.n != sz * 8: v = z3.ZeroExt(sz * 8 - ty.n, v)
            return [(0, sz, v)]
        if ty.k in ('float', 'double', 'ptr'): return [(0, sizeof(ty), v)]
        if ty.k == 'struct':
            return [(field_off(ty, i) + o, s, x) for i, e in enumerate(ty.e) for o, s, x in self.to_mem(e, v[i])]
        if ty.k in ('arr', 'vec'):
            sz = sizeof(ty.e)
            return [(i * sz + o, s, x) for i in range(ty.n) for o, s, x in self.to_mem(ty.e, v[i])]
        raise Unsupported('store ' + ty.k)
    def from_mem(self, st, oid, off, ty):
        o = self.obj(st, oid)
        if ty.k == 'i':
            v = self.read_cell(o, off, sizeof(ty))
            if isinstance(v, Ptr): raise Unsupported('pointer read as int')
            if ty.n == 1: return fold(z3.Extract(0, 0, v)) == BVV(1, 1) if num(v) is None else z3.BoolVal(bool(num(v) & 1))
            if ty.n != sizeof(ty) * 8: v = fold(z3.Extract(ty.n - 1, 0, v))
            return v
        if ty.k in ('float', 'double'): return self.read_cell(o, off, sizeof(ty))
        if ty.k == 'ptr':
            v = self.read_cell(o, off, 8)
            if not isinstance(v, Ptr): raise Unsupported('int read as pointer')
            return v
        if ty.k == 'struct': return [self.from_mem(st, oid, off + field_off(ty, i), e) for i, e in enumerate(ty.e)]
        if ty.k in ('arr', 'vec'):
            sz = sizeof(ty.e)
            return [self.from_mem(st, oid, off + i * sz, ty.e) for i in range(ty.n)]
        raise Unsupported('load ' + ty.k)

    def table_select(self, st, oid, off, ty):
        """load at a symbolic offset: if-then-else tree over the aligned elements"""
        o = self.obj(st, oid)
        sz = sizeof(ty)
        n = o.size // sz
        if n == 0: raise Unsupported('load beyond object')
        width = max(1, (n - 1).bit_length())
        sh = (sz - 1).bit_length()
        if (1 << sh) != sz: raise Unsupported('odd element size')
        inb = z3.And(z3.ULE(off, BVV((n - 1) * sz, 64)), (off & BVV(sz - 1, 64)) == 0)
        self.trap(And(st.cond, Not(z3.simplify(inb))), 'out-of-bounds or misaligned access to %s' % o.name)
        if getattr(self.mod, 'opaque', False) and n > (4096 if self.mod.opaque is True else self.mod.opaque) and ty.k == 'i':
            # any table at all (the validation against the build then reads the real one: Module.tables)
            w = 8 * sz
            f = z3.Function('table_' + o.name.strip('@'), z3.BitVecSort(64), z3.BitVecSort(w))
            v = f(off)
            return v if w == ty.n else z3.Extract(ty.n - 1, 0, v)
        bits = [z3.simplify(b == 1) if not isinstance(b, int) else z3.BoolVal(b == 1) for b in bits_of(z3.simplify(off))[sh:sh + width]]
        poss = [0]
        for b in reversed(range(width)):       # only the entries the constant bits of the index allow
            poss = [2 * p + v for p in poss for v in ((1,) if is_t(bits[b]) else (0,) if is_f(bits[b]) else (0, 1))]
        leaves = [self.from_mem(st, oid, min(i, n - 1) * sz, ty) for i in poss]
        for b in range(width):
            if is_t(bits[b]) or is_f(bits[b]): continue
            leaves = [merge_val(bits[b], leaves[2 * i + 1], leaves[2 * i]) for i in range(len(leaves) // 2)]
        return leaves[0]

    def load(self, st, ptr, ty):
        if not isinstance(ptr, Ptr) or not ptr.alts:
            self.trap(st.cond, 'null or undefined pointer read'); return self.fresh_ty(ty)
        res = None
        for g, oid, off in reversed(ptr.alts):
            o = self.obj(st, oid)
            if isinstance(off, int):
                if off < 0 or off + sizeof(ty) > o.size:
                    self.trap(And(st.cond, g), 'out-of-bounds read of %s' % o.name); v = self.fresh_ty(ty)
                else: v = self.from_mem(st, oid, off, ty)
            else: v = self.table_select(st, oid, off, ty)
            res = v if res is None else merge_val(g, v, res)
        return res
    def store(self, st, ptr, ty, val):
        if not isinstance(ptr, Ptr) or not ptr.alts:
            self.trap(st.cond, 'null or undefined pointer write'); return
        parts = self.to_mem(ty, val)
        single = len(ptr.alts) == 1
        for g, oid, off in ptr.alts:
            o = self.wobj(st, oid)
            if isinstance(off, int):
                if off < 0 or off + sizeof(ty) > o.size:
                    self.trap(And(st.cond, g), 'out-of-bounds write of %s' % o.name); continue
                for po, s, v in parts:
                    if single: self.write_cell(o, off + po, s, v)
                    else:
                        old = self.read_cell(o, off + po, s)
                        self.write_cell(o, off + po, s, merge_val(g, v, old))
            else:
                sz = sizeof(ty); n = o.size // sz
                self.trap(And(st.cond, z3.UGT(off, BVV((n - 1) * sz, 64))), 'out-of-bounds write of %s' % o.name)
                if n > 4096: raise Unsupported('symbolic store')
                for i in range(n):
                    c = And(g, z3.simplify(off == BVV(i * sz, 64)))
                    if is_f(c): continue
                    for po, s, v in parts:
                        old = self.read_cell(o, i * sz + po, s)
                        self.write_cell(o, i * sz + po, s, merge_val(c, v, old))

    def trap(self, cond, what):
        if is_f(cond): return
        self.traps.append((cond, what))

    # ---- operands
    def val(self, st, ty, o):
        k = o[0]
        if k == 'v': return st.env[o[1]]
        if k == 'c':
            if ty.k == 'i' and ty.n == 1: return TRUE if o[2] & 1 else FALSE
            return BVV(o[2], ty.n)
        if k == 'f': return BVV(o[2], 32 if ty.k == 'float' else 64)
        if k == 'undef': return self.fresh_ty(ty)
        if k == 'zero': return self.zero_ty(ty)
        if k == 'null': return Ptr([])
        if k == 'g': return Ptr([(TRUE, self.global_obj(o[1]), 0)])
        if k == 'agg':
            if ty.k == 'struct': return [self.val(st, e, x) for e, x in zip(ty.e, o[2])]
            return [self.val(st, ty.e, x) for x in o[2]]
        if k == 'str': return [BVV(c, 8) for c in o[1]]
        if k == 'ce' and o[1] == 'gep':
            return self.gep(st, o[2], self.val(st, TPTR, o[3]), [(t, self.val(st, t, v)) for t, v in o[4]])
        raise Unsupported('operand %r' % (o,))

    def gep(self, st, bt, base, idx):
        off, sym = 0, None
        t = bt
        for j, (it, v) in enumerate(idx):
            n = num(v)
            if n is not None and n >= 1 << (it.n - 1): n -= 1 << it.n
            if j == 0: sz = sizeof(bt)
            elif t.k == 'struct':
                off += field_off(t, n); t = t.e[n]; continue
            else:
                t = t.e; sz = sizeof(t)
            if n is not None: off += n * sz
            else:
                x = v if it.n == 64 else z3.SignExt(64 - it.n, v)
                x = x * BVV(sz, 64)
                sym = x if sym is None else sym + x
        out = []
        for g, o, f in base.alts:
            if sym is None and isinstance(f, int): out.append((g, o, f + off))
            else:
                e = BVV(off, 64) + (sym if sym is not None else BVV(0, 64)) + (BVV(f, 64) if isinstance(f, int) else f)
                e = z3.simplify(e)
                n = num(e)
                if n is not None: e = n - (1 << 64) if n >> 63 else n
                out.append((g, o, e))
        return Ptr(out)

    # ---- float
    def fp(self, ty, bv):
        return z3.fpBVToFP(bv, FPSORT[ty.k]())
    def ieee(self, ty, f):
        n = {'half': 16, 'float': 32, 'double': 64}[ty.k]
        q = BVV({16: 0x7e00, 32: 0x7fc00000, 64: 0x7ff8000000000000}[n], n)
        return z3.If(z3.fpIsNaN(f), q, z3.fpToIEEEBV(f))

    # ---- run
    def run(self, name, args, mem, cond=TRUE, depth=0):
        """returns (return value, mem, cond)"""
        if depth > 80: raise Unsupported('recursion')
        f = self.mod.func(name)
        self.funcs[name] = self.funcs.get(name, 0) + 1
        env = {p[1]: a for p, a in zip(f.params, args)}
        pending = {f.order[0]: [State(cond, env, mem)]}
        rets = []
        iters = {}
        steps = 0
        while pending:
            bn = min(pending, key=lambda b: f.wto[b])
            sts = pending.pop(bn)
            st = self.merge(f, bn, sts)
            if is_f(st.cond): continue
            steps += 1
            if steps > self.max_steps: raise Unsupported('too many block instances')
            if bn in f.heads:
                if any(x.fwd for x in sts): iters[bn] = 0      # entered from outside
                it = iters.get(bn, 0) + 1
                iters[bn] = it
                self.maxiter = max(self.maxiter, it)
                if it > self.loop_solver_from and not is_t(z3.simplify(st.cond)):
                    if is_f(z3.simplify(st.cond)):
                        iters[bn] = 0
                        continue
                    s = z3.Solver(); s.set('timeout', 20000)
                    s.add(*self.assume); s.add(st.cond)
                    if s.check() == z3.unsat:
                        iters[bn] = 0
                        continue
                if it > self.unwind:
                    self.unwound.append((st.cond, '%s:%s' % (name, bn)))
                    continue
            # inner loop counters restart when an outer loop goes on
            b = f.blocks[bn]
            self.nblocks += 1
            dead = False
            for ins in b.ins:
                self.ninstr += 1
                if ins.op == 'call':
                    r = self.call(st, ins, depth, name)
                    if isinstance(r, str):
                        dead = True; break
                    if ins.dst: st.env[ins.dst] = r
                else:
                    v = self.instr(st, ins)
                    if ins.dst: st.env[ins.dst] = v
            if dead or is_f(st.cond): continue
            t = b.term
            if t[0] == 'ret':
                rets.append((st.cond, self.val(st, *t[1]) if t[1] else None, st.mem))
                continue
            if t[0] == 'unreachable':
                self.trap(st.cond, 'unreachable in ' + name)
                continue
            edges = []
            if t[0] == 'br': edges = [(TRUE, t[1])]
            elif t[0] == 'cbr':
                c = self.val(st, Ty('i', 1), t[1])
                if t[2] == t[3]: edges = [(TRUE, t[2])]
                else: edges = [(c, t[2]), (Not(c), t[3])]
            else:
                v = self.val(st, *t[1]); rest = TRUE; acc = {}
                for cv, lb in t[3]:
                    e = fold(v == BVV(cv[2], t[1][0].n)) if t[1][0].n > 1 else (v if cv[2] & 1 else Not(v))
                    acc[lb] = Or(acc.get(lb, FALSE), e)
                    rest = And(rest, Not(e))
                acc[t[2]] = Or(acc.get(t[2], FALSE), rest)
                edges = [(c, lb) for lb, c in acc.items()]
            for c, lb in edges:
                nc = And(st.cond, c)
                if is_f(nc): continue
                self.nedges += 1
                ne = dict(st.env)
                tb = f.blocks[lb]
                if tb.phis:
                    vals = []
                    for ph in tb.phis:
                        for v, pb in ph.a[1]:
                            if pb == bn:
                                vals.append((ph.dst, self.val(st, ph.a[0], v))); break
                    for d, v in vals: ne[d] = v
                live = f.livein[lb]
                ne = {k: v for k, v in ne.items() if k in live}
                pending.setdefault(lb, []).append(State(nc, ne, dict(st.mem) if len(edges) > 1 else st.mem, f.wto[lb] > f.wto[bn]))
        if not rets:
            return None, mem, FALSE
        c, v, m = rets[-1]
        for c2, v2, m2 in reversed(rets[:-1]):
            v = merge_val(c2, v2, v) if v2 is not None else v
            m = self.merge_mem(c2, m2, m)
            c = Or(c2, c)
        return v, m, c

    def merge(self, f, bn, sts):
        st = sts[-1]
        for s2 in reversed(sts[:-1]):
            env = {}
            for k in f.livein[bn]:
                a, b = s2.env.get(k), st.env.get(k)
                if a is None and b is None: continue
                env[k] = merge_val(s2.cond, a, b)
            st = State(Or(s2.cond, st.cond), env, self.merge_mem(s2.cond, s2.mem, st.mem))
        return st

    def merge_mem(self, c, a, b):
        if a is b: return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None or x is y:
                out[k] = x if x is not None else y
                if (x is None or y is None) and hasattr(self, 'gdata') and k in self.gdata:
                    x = x or self.gdata[k]; y = y or self.gdata[k]
                else: continue
            o = x.copy(); o.cells = {}
            offs = set(x.cells) | set(y.cells)
            bad = set()
            for p in offs:
                u, v = x.cells.get(p), y.cells.get(p)
                if u is not None and v is not None and u[0] == v[0]:
                    if u[1] is v[1]: o.cells[p] = u
                    else:
                        o.cells[p] = (u[0], merge_val(c, self._lift(u[1], u[0]), self._lift(v[1], v[0])))
                else: bad.add(p)
            for p in sorted(bad):
                for src in (x, y):
                    u = src.cells.get(p)
                    if u is None: continue
                    if isinstance(u[1], Ptr):
                        o.cells[p] = u; continue
                    for i in range(u[0]):
                        q = p + i
                        if q in o.cells and o.cells[q][0] == 1: continue
                        bx, by = self.byte_at(x, q), self.byte_at(y, q)
                        if bx is None: bx = self.fresh(8, 'uninit')
                        if by is None: by = self.fresh(8, 'uninit')
                        o.cells[q] = (1, merge_val(c, bx, by))
            # drop wide cells covering byte cells
            out[k] = o
        return out

    # ---- instructions
    def instr(self, st, ins):
        op, a = ins.op, ins.a
        if op in BIN:
            ty = a[0]
            x, y = self.val(st, ty, a[1]), self.val(st, ty, a[2])
            if ty.k == 'vec': return [self.binop(st, op, ty.e, p, q) for p, q in zip(x, y)]
            return self.binop(st, op, ty, x, y)
        if op == 'icmp':
            pred, ty = a[0], a[1]
            x, y = self.val(st, ty, a[2]), self.val(st, ty, a[3])
            if ty.k == 'vec': return [self.icmp(pred, ty.e, p, q) for p, q in zip(x, y)]
            return self.icmp(pred, ty, x, y)
        if op == 'fcmp':
            pred, ty = a[0], a[1]
            if pred == 'true': return TRUE
            if pred == 'false': return FALSE
            x, y = self.val(st, ty, a[2]), self.val(st, ty, a[3])
            if ty.k not in FPW: raise Unsupported('fcmp on ' + ty.k)
            w = x.size(); top = BVV({16: 0x1f << 10, 32: 0xff << 23, 64: 0x7ff << 52}[w], w)
            mag = lambda v: v & BVV((1 << (w - 1)) - 1, w)
            neg = lambda v: z3.Extract(w - 1, w - 1, v) == 1
            un = z3.Or(z3.UGT(mag(x), top), z3.UGT(mag(y), top))
            if pred == 'ord': return fold(z3.Not(un))
            if pred == 'uno': return fold(un)
            zz = z3.And(mag(x) == 0, mag(y) == 0)
            eq = z3.Or(x == y, zz)
            lt = z3.And(z3.Not(zz), z3.If(neg(x), z3.Or(z3.Not(neg(y)), z3.UGT(mag(x), mag(y))), z3.And(z3.Not(neg(y)), z3.ULT(mag(x), mag(y)))))
            o = {'eq': eq, 'ne': z3.Not(eq), 'lt': lt, 'le': z3.Or(lt, eq), 'gt': z3.Not(z3.Or(lt, eq)), 'ge': z3.Not(lt)}[pred[1:]]
            return fold(z3.And(z3.Not(un), o) if pred[0] == 'o' else z3.Or(un, o))
            return z3.And(z3.Not(un), o) if pred[0] == 'o' else z3.Or(un, o)
        if op == 'select':
            c = self.val(st, *a[0]); x = self.val(st, *a[1]); y = self.val(st, *a[2])
            if isinstance(c, list): return [merge_val(cc, p, q) for cc, p, q in zip(c, x, y)]
            return merge_val(c, x, y)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr'):
            (sty, o), ty = a
            x = self.val(st, sty, o)
            if sty.k == 'vec' and ty.k == 'vec' and op != 'bitcast': return [self.cast(st, op, sty.e, ty.e, e) for e in x]
            return self.cast(st, op, sty, ty, x)
        if op == 'fneg':
            x = self.val(st, *a); n = x.size()
            return fold(x ^ BVV(1 << (n - 1), n))
        if op == 'freeze': return self.val(st, *a[0])
        if op == 'load': return self.load(st, self.val(st, TPTR, a[1]), a[0])
        if op == 'store':
            (ty, o), p = a
            self.store(st, self.val(st, TPTR, p), ty, self.val(st, ty, o)); return None
        if op == 'gep': return self.gep(st, a[0], self.val(st, TPTR, a[1]), [(t, self.val(st, t, v)) for t, v in a[2]])
        if op == 'alloca':
            n = 1
            if a[1] is not None:
                n = num(self.val(st, *a[1]))
                if n is None: raise Unsupported('dynamic alloca')
            return Ptr([(TRUE, self.new_obj(st.mem, sizeof(a[0]) * n, ins.dst), 0)])
        if op == 'extractvalue':
            v = self.val(st, *a[0])
            for i in a[1]: v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(st, *a[0]); y = self.val(st, *a[1])
            def rec(v, idx):
                v = list(v)
                v[idx[0]] = y if len(idx) == 1 else rec(v[idx[0]], idx[1:])
                return v
            return rec(v, a[2])
        if op == 'extractelement':
            v = self.val(st, *a[0]); i = num(self.val(st, *a[1]))
            if i is None: raise Unsupported('extractelement')
            return v[i]
        if op == 'insertelement':
            v = list(self.val(st, *a[0])); i = num(self.val(st, *a[2]))
            if i is None: raise Unsupported('insertelement')
            v[i] = self.val(st, *a[1]); return v
        if op == 'shufflevector':
            x, y = self.val(st, *a[0]), self.val(st, *a[1])
            m = a[2][1]
            w = x + y
            if m[0] == 'zero': return [w[0]] * a[2][0].n
            if m[0] == 'undef': return [self.fresh_ty(a[0][0].e)] * a[2][0].n
            return [w[e[2]] if e[0] == 'c' else self.fresh_ty(a[0][0].e) for e in m[2]]
        raise Unsupported('instruction ' + ins.line)

    def icmp(self, pred, ty, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            def isnull(p): return not p.alts
            if pred in ('eq', 'ne'):
                if isnull(x) != isnull(y): return FALSE if pred == 'eq' else TRUE
                if len(x.alts) == 1 and len(y.alts) == 1 and isinstance(x.alts[0][2], int) and isinstance(y.alts[0][2], int):
                    e = x.alts[0][1:] == y.alts[0][1:]
                    return z3.BoolVal(e if pred == 'eq' else not e)
            if len(x.alts) == 1 and len(y.alts) == 1 and x.alts[0][1] == y.alts[0][1]:
                f = lambda o: BVV(o, 64) if isinstance(o, int) else o
                return self.icmp(pred, Ty('i', 64), f(x.alts[0][2]), f(y.alts[0][2]))
            raise Unsupported('pointer compare')
        if ty.n == 1:
            if pred == 'eq': return fold(x == y)
            if pred == 'ne': return fold(z3.Xor(x, y))
            x, y = b2v(x, 1), b2v(y, 1)
        return fold({'eq': lambda: x == y, 'ne': lambda: z3.Not(x == y), 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                     'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()) if pred != 'ne' else Not(fold(x == y))

    def binop(self, st, op, ty, x, y):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fsqrt', 'fremainder'):
            fx, fy = self.fp(ty, x), self.fp(ty, y)
            rm = z3.RNE()
            if self.fops is not None and not (z3.is_bv_value(x) and z3.is_bv_value(y)):
                for o2, x2, y2, r in self.fops:
                    if o2 == op and x2.eq(x) and y2.eq(y): return r
                r = BV('fop!%d' % len(self.fops), x.size())
                self.fops.append((op, x, y, r))
                return r
            if op == 'frem': raise Unsupported('frem')
            if op == 'fsqrt': return self.ieee(ty, z3.fpSqrt(rm, fx))
            if op == 'fremainder': return self.ieee(ty, z3.fpRem(fx, fy))
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, fx, fy)
            return self.ieee(ty, r)
        if ty.n == 1:
            if op == 'and': return And(x, y)
            if op == 'or': return Or(x, y)
            if op in ('xor', 'add', 'sub'):
                if is_t(y): return Not(x)
                if is_t(x): return Not(y)
                return fold(z3.Xor(x, y))
            if op == 'mul': return And(x, y)
            raise Unsupported('i1 ' + op)
        n = ty.n
        if op == 'mul':
            cx, cy = num(x), num(y)
            if cx is None and cy is None:
                r = self.mul_hook(self, st, x, y) if self.mul_hook else x * y
                self.muls.append((r, x, y)); return r
            return fold(x * y)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if num(y) is None: self.trap(And(st.cond, y == 0), 'division by zero')
            elif num(y) == 0: self.trap(st.cond, 'division by zero')
            f = {'udiv': z3.UDiv, 'sdiv': lambda p, q: p / q, 'urem': z3.URem, 'srem': z3.SRem}[op]
            if num(y) is None:
                r = self.div_hook(self, st, op, x, y) if self.div_hook else f(x, y)
                self.divs.append((op, r, x, y)); return r
            return fold(f(x, y))
        if op in ('shl', 'lshr', 'ashr'):
            # a shift by >= width is poison: code built with the sanitizer cannot reach it; otherwise what the processor does
            # (count modulo the width), which is also the cheapest term
            f = {'shl': lambda p, q: p << q, 'lshr': z3.LShR, 'ashr': lambda p, q: p >> q}[op]
            if num(y) is None and n >= 32 and n & (n - 1) == 0:
                k = n.bit_length() - 1
                y = z3.Concat(BVV(0, n - k), z3.Extract(k - 1, 0, y))
            return fold(f(x, y))
        if op == 'and':
            if num(x) == 0 or num(y) == 0: return BVV(0, n)
            if num(y) == (1 << n) - 1: return x
            return fold(x & y)
        if op == 'or':
            if num(x) == 0: return y
            if num(y) == 0: return x
            return fold(x | y)
        if op == 'xor': return fold(x ^ y)
        if op == 'add':
            if num(y) == 0: return x
            return fold(x + y)
        if op == 'sub':
            if num(y) == 0: return x
            return fold(x - y)
        raise Unsupported(op)

    def cast(self, st, op, sty, ty, x):
        if op == 'zext': return b2v(x, ty.n) if sty.n == 1 else fold(z3.ZeroExt(ty.n - sty.n, x))
        if op == 'sext':
            if sty.n == 1: return Ite(x, BVV(-1, ty.n), BVV(0, ty.n))
            return fold(z3.SignExt(ty.n - sty.n, x))
        if op == 'trunc':
            if ty.n == 1: return fold(fold(z3.Extract(0, 0, x)) == BVV(1, 1))
            return fold(z3.Extract(ty.n - 1, 0, x))
        if op == 'bitcast':
            if sty.k == 'vec' or ty.k == 'vec':
                def flat(t, v):
                    if t.k == 'vec': return fold(z3.Concat(*[b2v(e, 1) if z3.is_bool(e) else e for e in v[::-1]])) if t.n > 1 else v[0]
                    return v
                w = flat(sty, x)
                if ty.k == 'vec':
                    es = w.size() // ty.n
                    return [fold(z3.Extract(es * (i + 1) - 1, es * i, w)) for i in range(ty.n)]
                return w
            return x
        if op in ('fpext', 'fptrunc'): return fold(fconv(x, sty.k, ty.k))
        if op in ('sitofp', 'uitofp'):
            if sty.n == 1: x = b2v(x, 8)
            s = FPSORT[ty.k]()
            return self.ieee(ty, (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), x, s))
        if op in ('fptosi', 'fptoui'):
            f = self.fp(sty, x)
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), f, z3.BitVecSort(ty.n))
        raise Unsupported(op)

    # ---- calls
    def call(self, st, ins, depth, caller):
        rt, callee, args = ins.a
        n = callee[1:].strip('"')
        if n.startswith('llvm.'):
            return self.intrinsic(st, n, rt, args, caller)
        if callee in self.mod.funcs:
            av = [self.val(st, t, v) for t, v in args]
            r, mem, c = self.run(callee, av, st.mem, st.cond, depth + 1)
            if is_f(c): return 'dead'
            st.mem = mem; st.cond = c
            return r
        if n in ('memcpy', 'memmove'): return self.intrinsic(st, 'llvm.memcpy', rt, args + [(Ty('i', 1), ('c', Ty('i', 1), 0))], caller)
        if n == 'memset': return self.intrinsic(st, 'llvm.memset', rt, args + [(Ty('i', 1), ('c', Ty('i', 1), 0))], caller)
        if n in ('abort', '__assert_fail', 'exit', '_ZSt17__throw_bad_allocv', '__cxa_throw'):
            self.trap(st.cond, 'call of ' + n); return 'dead'
        if n in ('fmaf', 'fma'):
            ty = TFLOAT if n == 'fmaf' else TDOUBLE
            v = [self.fp(ty, self.val(st, t, x)) for t, x in args]
            return self.ieee(ty, z3.fpFMA(z3.RNE(), *v))
        if n in ('sqrtf', 'sqrt', 'remainderf', 'remainder'):
            ty = TFLOAT if n.endswith('f') else TDOUBLE
            v = [self.val(st, t, x) for t, x in args]
            return self.binop(st, 'f' + n.rstrip('f'), ty, v[0], v[-1])
        if n in ('fabsf', 'fabs'): return self.intrinsic(st, 'llvm.fabs', rt, args, caller)
        raise Unsupported('external call ' + n)

    def intrinsic(self, st, n, rt, args, caller):
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant')): return None
        if n.startswith('llvm.assume'): return None
        if n in ('llvm.x86.avx2.psign.b', 'llvm.x86.ssse3.psign.b.128'):
            x, y = self.val(st, *args[0]), self.val(st, *args[1])
            return [fold(z3.If(q == 0, BVV(0, 8), z3.If(q < 0, -p, p))) for p, q in zip(x, y)]
        if n == 'llvm.x86.vcvtps2ph.128':
            if num(self.val(st, *args[1])) not in (0, 8): raise Unsupported('rounding of vcvtps2ph')
            return [fconv(e, 'float', 'half') for e in self.val(st, *args[0])] + [BVV(0, 16)] * 4
        if n == 'llvm.x86.vcvtph2ps.128': return [fconv(e, 'half', 'float') for e in self.val(st, *args[0])[:4]]
        if n.startswith(('llvm.ubsantrap', 'llvm.trap', 'llvm.debugtrap')):
            k = ''
            if args: k = UBKIND.get(args[0][1][2], str(args[0][1][2]))
            self.trap(st.cond, 'undefined behaviour (%s) in %s' % (k, caller))
            return 'dead'
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s = self.val(st, *args[0]), self.val(st, *args[1]); k = num(self.val(st, *args[2]))
            if k is None: raise Unsupported('memcpy size')
            if k == 0: return d
            if len(d.alts) != 1 or len(s.alts) != 1 or not isinstance(d.alts[0][2], int) or not isinstance(s.alts[0][2], int):
                if len(s.alts) > 1 or len(d.alts) > 1:
                    v = self.load(st, s, Ty('arr', k, Ty('i', 8))); self.store(st, d, Ty('arr', k, Ty('i', 8)), v); return d
                raise Unsupported('memcpy pointers')
            so, do = self.obj(st, s.alts[0][1]), self.wobj(st, d.alts[0][1])
            a, b = s.alts[0][2], d.alts[0][2]
            if a < 0 or b < 0 or a + k > so.size or b + k > do.size:
                self.trap(st.cond, 'out-of-bounds memcpy'); return d
            moved = []
            p = a
            while p < a + k:
                c = so.cells.get(p)
                if c is not None and p + c[0] <= a + k:
                    moved.append((p - a, c[0], c[1])); p += c[0]
                else:
                    x = self.byte_at(so, p)
                    if x is not None: moved.append((p - a, 1, x))
                    p += 1
            for q in list(do.cells):
                c = do.cells[q]
                if q < b + k and q + c[0] > b and not (q >= b and q + c[0] <= b + k):
                    self.write_cell(do, max(q, b), 1, BVV(0, 8))
            for q in list(do.cells):
                if b <= q < b + k: del do.cells[q]
            for o, sz, v in moved:
                if isinstance(v, tuple): v = self.const_ptr(v)
                do.cells[b + o] = (sz, v)
            return d
        if n.startswith('llvm.memset'):
            d, v = self.val(st, *args[0]), self.val(st, *args[1]); k = num(self.val(st, *args[2]))
            if k is None or len(d.alts) != 1 or not isinstance(d.alts[0][2], int): raise Unsupported('memset')
            o = self.wobj(st, d.alts[0][1]); b = d.alts[0][2]
            if b < 0 or b + k > o.size:
                self.trap(st.cond, 'out-of-bounds memset'); return d
            for i in range(k): self.write_cell(o, b + i, 1, v)
            return d
        v = [self.val(st, t, x) if t.k != 'metadata' else None for t, x in args]
        ty = args[0][0]
        b = n.split('.')[1]
        if ty.k == 'vec': raise Unsupported('vector intrinsic ' + n)
        if b in ('ctlz', 'cttz'):
            w = ty.n
            r = BVV(w, w)
            x = v[0]
            if num(x) is not None:
                k = num(x)
                return BVV((w - k.bit_length()) if b == 'ctlz' else (w if k == 0 else (k & -k).bit_length() - 1), w)
            return ctlz(x) if b == 'ctlz' else cttz(x)
        if b == 'ctpop':
            w = ty.n
            r = BVV(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v[0]))
            return r
        if b == 'abs': return Ite(fold(v[0] < 0), fold(-v[0]), v[0])
        if b in ('smin', 'smax', 'umin', 'umax'):
            c = {'smin': lambda: v[0] < v[1], 'smax': lambda: v[0] > v[1], 'umin': lambda: z3.ULT(v[0], v[1]), 'umax': lambda: z3.UGT(v[0], v[1])}[b]()
            return Ite(fold(c), v[0], v[1])
        if b in ('fshl', 'fshr'):
            w = ty.n
            s = fold(z3.URem(v[2], BVV(w, w)))
            cat = fold(z3.Concat(v[0], v[1]))
            sh = fold(z3.ZeroExt(w, s))
            if b == 'fshl': return fold(z3.Extract(2 * w - 1, w, fold(cat << sh)))
            return fold(z3.Extract(w - 1, 0, fold(z3.LShR(cat, sh))))
        if b in ('bswap', 'bitreverse'):
            w = ty.n; k = 8 if b == 'bswap' else 1
            return fold(z3.Concat(*[z3.Extract(k * i + k - 1, k * i, v[0]) for i in range(w // k)]))
        if b in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
            kind = n.split('.')[2]
            w = ty.n
            ext = z3.SignExt if b[0] == 's' else z3.ZeroExt
            e = w if 'mul' in b else 1
            if b[0] == 'u' and 'sub' in b: e = 1
            X, Y = fold(ext(e, v[0])), fold(ext(e, v[1]))
            R = fold({'add': lambda: X + Y, 'sub': lambda: X - Y, 'mul': lambda: X * Y}[b[1:]]())
            low = fold(z3.Extract(w - 1, 0, R))
            ov = Not(fold(fold(ext(e, low)) == R))
            if kind == 'with': return [low, ov]
            if kind == 'sat':
                if b[0] == 'u': return Ite(ov, BVV(0, w) if b == 'usub' else BVV(-1, w), low)
                neg = fold(R < 0)
                return Ite(ov, Ite(neg, BVV(1 << (w - 1), w), BVV((1 << (w - 1)) - 1, w)), low)
        if n.startswith('llvm.x86.bmi.bextr'):
            w = ty.n
            ctl = v[1]
            start = fold(z3.ZeroExt(w - 8, z3.Extract(7, 0, ctl))); ln = fold(z3.ZeroExt(w - 8, z3.Extract(15, 8, ctl)))
            s = fold(z3.LShR(v[0], start))
            m = Ite(fold(z3.UGE(ln, BVV(w, w))), BVV(-1, w), fold(fold(BVV(1, w) << ln) - 1))
            return fold(s & m)
        if b == 'expect': return v[0]
        if b == 'is': return v[0]
        if b == 'fabs':
            w = v[0].size(); return fold(v[0] & BVV((1 << (w - 1)) - 1, w))
        if b == 'copysign':
            w = v[0].size(); return fold((v[0] & BVV((1 << (w - 1)) - 1, w)) | (v[1] & BVV(1 << (w - 1), w)))
        if b in ('fma', 'fmuladd'):
            f = [self.fp(ty, x) for x in v]
            if b == 'fma': return self.ieee(ty, z3.fpFMA(z3.RNE(), *f))
            return self.ieee(ty, z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), f[0], f[1]), f[2]))
        if b == 'sqrt': return self.ieee(ty, z3.fpSqrt(z3.RNE(), self.fp(ty, v[0])))
        if b in ('minnum', 'maxnum'):
            f = [self.fp(ty, x) for x in v]
            lt = z3.fpLT(f[0], f[1]) if b == 'minnum' else z3.fpGT(f[0], f[1])
            return z3.If(z3.fpIsNaN(f[0]), v[1], z3.If(z3.fpIsNaN(f[1]), v[0], z3.If(lt, v[0], v[1])))
        raise Unsupported('intrinsic ' + n)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
UBKIND = {0: 'signed add overflow', 1: 'builtin unreachable', 2: 'bad cfi', 3: 'integer divide by zero', 4: 'dynamic type', 5: 'float cast overflow',
          7: 'implicit conversion', 8: 'invalid builtin argument', 10: 'bool/enum load', 11: 'missing return', 12: 'signed mul overflow', 13: 'negation overflow',
          16: 'nonnull', 18: 'out of bounds', 20: 'shift out of bounds', 21: 'signed sub overflow', 22: 'type mismatch', 23: 'alignment', 24: 'vla'}

def b2v(x, n):
    if is_t(x): return BVV(1, n)
    if is_f(x): return BVV(0, n)
    return z3.If(x, BVV(1, n), BVV(0, n))

FPSORT = dict(half=z3.Float16, float=z3.Float32, double=z3.Float64)
FPW = dict(half=(5, 10), float=(8, 23), double=(11, 52))

def fconv(x, a, b):
    """conversion between IEEE formats on bit patterns, round to nearest even; a NaN stays one (quieted, payload kept at the top)"""
    (ea, fa), (eb, fb) = FPW[a], FPW[b]
    s = z3.Extract(ea + fa, ea + fa, x); re = z3.Extract(ea + fa - 1, fa, x); fr = z3.Extract(fa - 1, 0, x)
    W = 16
    top = re == BVV((1 << ea) - 1, ea); z = re == BVV(0, ea); f0 = fr == BVV(0, fa)
    bias = (1 << (ea - 1)) - 1; bb = (1 << (eb - 1)) - 1
    # significand with the leading one on top
    m = z3.Concat(z3.If(z, BVV(0, 1), BVV(1, 1)), fr); n = fa + 1
    e = z3.If(z, BVV(1 - bias, W), z3.ZeroExt(W - ea, re) - BVV(bias, W))
    k = 1
    while k * 2 < n: k *= 2
    while k:
        c = z3.Extract(n - 1, n - k, m) == BVV(0, k)
        m = z3.If(c, m << BVV(k, n), m); e = z3.If(c, e - BVV(k, W), e); k //= 2
    sg = z3.Concat(s, BVV(0, eb + fb))
    inf = sg | BVV(((1 << eb) - 1) << fb, 1 + eb + fb)
    pay = z3.Concat(fr, BVV(0, fb - fa)) if fb > fa else z3.Extract(fa - 1, fa - fb, fr) if fa > fb else fr
    nan = inf | z3.Concat(BVV(0, 1 + eb), pay) | BVV(1 << (fb - 1), 1 + eb + fb)
    # room for every shift: fb + 1 kept bits, two more and a sticky one
    P = max(n, fb + 1) + 3
    q = z3.Concat(m, BVV(0, P - n))
    sh = z3.If(e < BVV(1 - bb, W), BVV(1 - bb, W) - e, BVV(0, W))
    sh = z3.If(z3.UGT(sh, BVV(fb + 3, W)), BVV(fb + 3, W), sh)
    L = max(P, W)
    def zw(v, w): return v if v.size() == w else z3.ZeroExt(w - v.size(), v)
    q0 = zw(q, L); r = z3.LShR(q0, zw(sh, L)); lost = (r << zw(sh, L)) != q0
    kept = z3.Extract(P - 1, P - fb - 1, r)                       # fb + 1 bits
    half = z3.Extract(P - fb - 2, P - fb - 2, r) == BVV(1, 1)
    rest = z3.Or(lost, z3.Extract(P - fb - 3, 0, r) != BVV(0, P - fb - 2))
    up = z3.And(half, z3.Or(rest, z3.Extract(0, 0, kept) == BVV(1, 1)))
    den = e < BVV(1 - bb, W)
    ex = z3.If(den, BVV(0, W), e + BVV(bb - 1, W))                # the leading one of kept adds the last unit
    body = (z3.Concat(ex, BVV(0, fb)) + zw(kept, W + fb)) + z3.If(up, BVV(1, W + fb), BVV(0, W + fb))
    over = z3.UGE(body, BVV(((1 << eb) - 1) << fb, W + fb))
    num_ = z3.If(over, inf, sg | zw(z3.Extract(eb + fb - 1, 0, body), 1 + eb + fb))
    return z3.If(top, z3.If(f0, inf, nan), z3.If(z3.And(z, f0), sg, num_))

def ctlz(x):
    w = x.size()
    r = BVV(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, BVV(w - 1 - i, w), r)
    return r
def cttz(x):
    w = x.size()
    r = BVV(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == 1, BVV(i, w), r)
    return r

def run_harness(mod, name, inputs, nout, **kw):
    """void name(const uint64_t *in, uint64_t *out): inputs are BV64 terms. Returns (outputs, exec, completed-condition)"""
    ex = Exec(mod, **kw)
    mem = {}
    i = ex.new_obj(mem, 8 * max(1, len(inputs)), 'in')
    o = ex.new_obj(mem, 8 * max(1, nout), 'out')
    for k, v in enumerate(inputs): mem[i].cells[8 * k] = (8, v)
    _, mem, c = ex.run('@' + name, [Ptr([(TRUE, i, 0)]), Ptr([(TRUE, o, 0)])], mem)
    outs = []
    if not is_f(c):
        for k in range(nout):
            outs.append(ex.read_cell(mem[o], 8 * k, 8))
    return outs, ex, c
