"""Concrete evaluation of z3 bit-vector/boolean DAGs on several assignments at once (python integers)."""
import z3
K = z3
def topo(es):
    seen = set(); out = []
    st = [(e, False) for e in reversed(list(es))]
    while st:
        e, done = st.pop()
        i = e.get_id()
        if done:
            out.append(e); continue
        if i in seen: continue
        seen.add(i)
        st.append((e, True))
        for c in e.children():
            if c.get_id() not in seen: st.append((c, False))
    return out

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class NoEval(Exception): pass

def evaluate(es, assigns, free=0):
    """es: terms; assigns: list of {var ast id: int}; returns {ast id: [values]} for every node reachable (None where not evaluable)"""
    n = len(assigns)
    val = {}
    for e in topo(es):
        i = e.get_id()
        try: val[i] = node(e, val, assigns, n, free)
        except NoEval: val[i] = None
    return val

def node(e, val, assigns, n, free):
    d = e.decl(); k = d.kind()
    w = e.size() if z3.is_bv(e) else 0
    M = (1 << w) - 1
    if z3.is_bv_value(e): return [e.as_long()] * n
    if k == K.Z3_OP_TRUE: return [1] * n
    if k == K.Z3_OP_FALSE: return [0] * n
    ch = e.children()
    if not ch:
        if k == K.Z3_OP_UNINTERPRETED and (w or z3.is_bool(e)): return [a.get(e.get_id(), free) for a in assigns]
        raise NoEval()
    a = [val[c.get_id()] for c in ch]
    if k == K.Z3_OP_ITE:
        c, x, y = a
        if c is None: raise NoEval()
        if x is None or y is None:
            if x is not None and all(c): return x
            if y is not None and not any(c): return y
            raise NoEval()
        return [x[i] if c[i] else y[i] for i in range(n)]
    if any(x is None for x in a): raise NoEval()
    def m2(f): return [f(x, y) for x, y in zip(a[0], a[1])]
    cw = ch[0].size() if z3.is_bv(ch[0]) else 0
    if k == K.Z3_OP_AND: return [int(all(x[i] for x in a)) for i in range(n)]
    if k == K.Z3_OP_OR: return [int(any(x[i] for x in a)) for i in range(n)]
    if k == K.Z3_OP_NOT: return [1 - x for x in a[0]]
    if k == K.Z3_OP_XOR: return [sum(x[i] for x in a) & 1 for i in range(n)]
    if k == K.Z3_OP_IMPLIES: return m2(lambda x, y: int((not x) or y))
    if k in (K.Z3_OP_EQ, K.Z3_OP_IFF): return m2(lambda x, y: int(x == y))
    if k == K.Z3_OP_DISTINCT: return [int(len({x[i] for x in a}) == len(a)) for i in range(n)]
    if k == K.Z3_OP_BADD: return [sum(x[i] for x in a) & M for i in range(n)]
    if k == K.Z3_OP_BSUB:
        r = a[0]
        for b in a[1:]: r = [(x - y) & M for x, y in zip(r, b)]
        return r
    if k == K.Z3_OP_BMUL:
        r = a[0]
        for b in a[1:]: r = [(x * y) & M for x, y in zip(r, b)]
        return r
    if k == K.Z3_OP_BNEG: return [(-x) & M for x in a[0]]
    if k == K.Z3_OP_BNOT: return [x ^ M for x in a[0]]
    if k in (K.Z3_OP_BAND, K.Z3_OP_BOR, K.Z3_OP_BXOR):
        r = a[0]
        for b in a[1:]: r = [(x & y) if k == K.Z3_OP_BAND else (x | y) if k == K.Z3_OP_BOR else x ^ y for x, y in zip(r, b)]
        return r
    if k in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I): return m2(lambda x, y: x // y if y else M)
    if k in (K.Z3_OP_BUREM, K.Z3_OP_BUREM_I): return m2(lambda x, y: x % y if y else x)
    if k in (K.Z3_OP_BSDIV, K.Z3_OP_BSDIV_I):
        def f(x, y):
            x, y = sgn(x, w), sgn(y, w)
            if y == 0: return (1 if x < 0 else -1) & M
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & M
        return m2(f)
    if k in (K.Z3_OP_BSREM, K.Z3_OP_BSREM_I):
        def f(x, y):
            x, y = sgn(x, w), sgn(y, w)
            if y == 0: return x & M
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & M
        return m2(f)
    if k == K.Z3_OP_BSHL: return m2(lambda x, y: (x << y) & M if y < w else 0)
    if k == K.Z3_OP_BLSHR: return m2(lambda x, y: x >> y if y < w else 0)
    if k == K.Z3_OP_BASHR: return m2(lambda x, y: (sgn(x, w) >> min(y, w)) & M)
    if k == K.Z3_OP_ULT: return m2(lambda x, y: int(x < y))
    if k == K.Z3_OP_ULEQ: return m2(lambda x, y: int(x <= y))
    if k == K.Z3_OP_UGT: return m2(lambda x, y: int(x > y))
    if k == K.Z3_OP_UGEQ: return m2(lambda x, y: int(x >= y))
    if k == K.Z3_OP_SLT: return m2(lambda x, y: int(sgn(x, cw) < sgn(y, cw)))
    if k == K.Z3_OP_SLEQ: return m2(lambda x, y: int(sgn(x, cw) <= sgn(y, cw)))
    if k == K.Z3_OP_SGT: return m2(lambda x, y: int(sgn(x, cw) > sgn(y, cw)))
    if k == K.Z3_OP_SGEQ: return m2(lambda x, y: int(sgn(x, cw) >= sgn(y, cw)))
    if k == K.Z3_OP_CONCAT:
        r = a[0]
        for c, b in zip(ch[1:], a[1:]):
            s = c.size(); r = [(x << s) | y for x, y in zip(r, b)]
        return r
    if k == K.Z3_OP_EXTRACT:
        h, l = d.params()
        mm = (1 << (h - l + 1)) - 1
        return [(x >> l) & mm for x in a[0]]
    if k == K.Z3_OP_ZERO_EXT: return a[0]
    if k == K.Z3_OP_SIGN_EXT: return [sgn(x, cw) & M for x in a[0]]
    if k == K.Z3_OP_ROTATE_LEFT:
        s = d.params()[0] % w
        return [((x << s) | (x >> (w - s))) & M for x in a[0]]
    if k == K.Z3_OP_ROTATE_RIGHT:
        s = d.params()[0] % w
        return [((x >> s) | (x << (w - s))) & M for x in a[0]]
    if k == K.Z3_OP_REPEAT:
        r = a[0]
        for _ in range(d.params()[0] - 1): r = [(x << cw) | y for x, y in zip(r, a[0])]
        return r
    if k == K.Z3_OP_BCOMP: return m2(lambda x, y: int(x == y))
    raise NoEval()
