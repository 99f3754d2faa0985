"""C22: no operand makes the library execute an operation the language leaves undefined. The wrappers of the other properties, compiled with trapping checks."""
import z3
from vc import TU, Goal
import bits_goals as bg, posit_goals as pg, posit_more as pm, unpacked_goals as ug, anyf_goals as ag, positf_goals as pf, f16_goals as fg, tab_goals as tg

def sources(tier, d):
    cfgs = pg.QUICK if tier == 'quick' else pg.QUICK + pg.MORE
    gs = []
    for f in (pg.c01, pg.c02, pg.c03, pg.c04, pg.c05, pg.c06, pg.c07, pg.c08, pg.c09, pg.c10, pg.c11, pm.c12, pm.c13, pm.c13_range, pm.c21, pm.c23, pm.c24): gs += f(cfgs)
    for f in (ug.c14, ug.c15, ug.c16, ag.c20, pf.c25, fg.c28, bg.c29, tg.c17, tg.c18, tg.c27): gs += f(tier, d)
    return gs

def c22(tier, d):
    by = {}; order = []; tus = {}
    for g in sources(tier, d):
        if g.fn == 't_rel' or tier == 'quick' and (getattr(g, 'slow', False) or g.weight >= 28 and g.fn in ('h_dot3', 'h_pm_dots', 'h_pm_dot')): continue
        k = (g.tu.key, g.fn)
        if k not in by: by[k] = []; order.append(k)
        by[k].append(g)
    out = []
    for k in order:
        gs = by[k]; g = gs[0]
        if k[0] not in tus: tus[k[0]] = TU(g.tu.src, g.tu.defs, sanitize=True, extra=g.tu.extra, native_extra=g.tu.native_extra, native_libs=g.tu.native_libs, opt='-O1')
        pres = None if any(x.pre is None for x in gs) else [x.pre for x in gs]
        pre = None if pres is None else (lambda xs, pres=pres: z3.Or(*[p(xs) for p in pres]))
        out.append(Goal(g.name.split('.')[0] + '.' + g.fn, tus[k[0]], g.fn, g.ins, g.nout, lambda xs, o: z3.BoolVal(True), pre=pre, edge=g.edge, timeout=g.timeout, weight=g.weight,
                        what='no undefined operation in ' + (g.what or g.name), nvec=16))
    return out
