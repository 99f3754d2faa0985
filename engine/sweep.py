"""Word level sweeping: nodes of the encoding and of the specification that take the same value on sampled inputs are shown equal by the
solver (under the assumptions of the query), in topological order, and merged. What remains to be decided afterwards is usually small.
Sampling only proposes; every merge is an unsat answer."""
import time, os
import z3, evalz

def cone(e):
    seen = {}; st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen[x.get_id()] = x
        st.extend(x.children())
    return seen

CTR = [0]
THIN = (z3.Z3_OP_EXTRACT, z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BNOT)
def shared_cut(a, b, facts=None, words=False):
    """(a', b') with the maximal common non-leaf subterms (words: only the bit-vectors computed by something else than selecting bits) replaced by fresh constants, or None if there are none"""
    ca, cb = cone(a), cone(b)
    out = []; seen = set(); st = [a, b]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ca and i in cb and x.children() and (z3.is_bv(x) and not (words and x.decl().kind() in THIN) or z3.is_bool(x) and not words):
            out.append(x); continue
        st.extend(x.children())
    if not out or len(out) > 40: return None
    subs = []
    for x in out:
        CTR[0] += 1
        subs.append((x, z3.BitVec('cut!%d' % CTR[0], x.size()) if z3.is_bv(x) else z3.Bool('cut!%d' % CTR[0])))
    fs = []
    for x, v in subs:
        f = facts.get(x.get_id()) if facts else None
        if f is not None: fs += [v >= f[1], v <= f[2]]
    return z3.substitute(a, *subs), z3.substitute(b, *subs), fs

def sweep(roots, pre, xs, vecs, prove, deadline, on_cex=None, hints=()):
    """roots: terms; pre: list of assumptions; xs: input constants; vecs: list of input value lists satisfying pre;
    prove(asserts, timeout) -> ('unsat'|'sat'|'unknown', model). returns (new roots, info)"""
    facts = {}
    extra = []
    for h, lo, hi in hints:
        if z3.is_bool(h):
            for w in (1, 8, 32, 64): extra.append(z3.If(h, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
            continue
        extra.append(h)
        for w in (16, 32, 64, 128):
            if lo is not None and w > h.size(): extra.append(z3.SignExt(w - h.size(), h))
    nroots = len(roots)
    roots = list(roots)
    hintf = {h.get_id(): (lo, hi) for h, lo, hi in hints if lo is not None}
    order = evalz.topo(extra + roots)
    ids = [x.get_id() for x in xs]
    asg = [dict(zip(ids, v)) for v in vecs]
    # other free constants: 0
    val = evalz.evaluate(extra + roots, asg)
    new = {}
    table = {}
    info = dict(merged=0, tried=0, refuted=0, unknown=0, nodes=len(order))
    done = []
    nb = 0
    late = set(); layer = list(roots)
    for _ in range(10):
        layer = [c for e in layer for c in e.children() if c.get_id() not in late]
        late.update(c.get_id() for c in layer)
    def key(e, sig): return (e.size() if z3.is_bv(e) else 0, tuple(sig))
    def konst(e, v): return z3.BitVecVal(v, e.size()) if z3.is_bv(e) else z3.BoolVal(bool(v))
    def rebuild():
        table.clear()
        for e in done:
            s = val.get(e.get_id())
            if s is None: continue
            table.setdefault(key(e, s), e)
    for e in order:
        i = e.get_id()
        ch = e.children()
        if not ch: new[i] = e; 
        else:
            pairs = [(c, new[c.get_id()]) for c in ch]
            e2 = z3.substitute(e, *pairs) if any(not a.eq(b) for a, b in pairs) else e
            new[i] = e2
        if i in hintf and z3.is_bv(new[i]) and not z3.is_bv_value(new[i]):
            lo, hi = hintf[i]; h = new[i]
            if prove(pre + [z3.Or(h < lo, h > hi)], 5.0)[0] == 'unsat': facts[h.get_id()] = (h, lo, hi)
        s = val.get(i)
        if s is None or not (z3.is_bv(e) or z3.is_bool(e)): continue
        if not ch:
            if not z3.is_bv_value(e) and not z3.is_true(e) and not z3.is_false(e):
                table.setdefault(key(e, s), e); done.append(e)
            continue
        if time.time() > deadline: continue
        tries = 0
        while tries < 12:
            tries += 1
            s = val[i]
            if len(set(s)) == 1: cand = konst(e, s[0])
            else:
                r = table.get(key(e, s))
                if r is None: break
                cand = new[r.get_id()]
            e2 = new[i]
            if e2.eq(cand): break
            info['tried'] += 1
            r = None
            for words in (False, True):
                c = shared_cut(e2, cand, facts, words)
                if c is None: continue
                r, m = prove(c[2] + [c[0] != c[1]], min(30.0, max(3.0, (deadline - time.time()) / 3)) if i in late else 3.0)
                if r == 'unsat': info['cut'] = info.get('cut', 0) + 1
                if r != 'sat': break
            if r != 'unsat': r, m = prove(pre + [e2 != cand], min(2.0, max(0.3, deadline - time.time())))
            if r == 'unsat':
                new[i] = cand; info['merged'] += 1; break
            if r != 'sat':
                info['unknown'] += 1; break
            info['refuted'] += 1
            v = [m.eval(x, model_completion=True).as_long() for x in xs]
            if on_cex is not None and on_cex(v):
                info['stopped'] = True
                return None, info
            a = dict(zip(ids, v))
            for d in m.decls():
                if d.arity() == 0:
                    c = d(); 
                    if c.get_id() not in a:
                        t = m[d]
                        if z3.is_bv_value(t): a[c.get_id()] = t.as_long()
                        elif z3.is_bool(t): a[c.get_id()] = int(z3.is_true(t))
            nv = evalz.evaluate(extra + roots, [a])
            for k, t in nv.items():
                if val.get(k) is not None:
                    if t is None: val[k] = None
                    else: val[k] = val[k] + t
            rebuild()
        if val[i] is not None and len(set(val[i])) > 1:
            if table.setdefault(key(e, val[i]), e) is e: done.append(e)
    return [new[r.get_id()] for r in roots], info
