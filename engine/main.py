"""check ID [tier]: decide one property"""
import os, sys, json, time, tempfile, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'checks')]
import vc
from vc import VERIF, REPO

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    import registry
    total = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '7200'))
    jobs = int(os.environ.get('VERIF_JOBS', str(max(2, min(8, os.cpu_count() or 4)))))
    d = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    rc = 2
    try:
        rc = run(pid, tier, seed, t0, registry, total, jobs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, t0, registry, total, jobs, d):
    prop = registry.PROPS[pid]
    goals = prop.goals(tier, d)
    flt = os.environ.get('GOALS')
    if flt: goals = [g for g in goals if flt in g.name]
    errs = vc.build_all([g.tu for g in goals], d, jobs)
    tb = time.time() - t0
    bad = [g for g in goals if g.tu.error]
    ok = [g for g in goals if not g.tu.error]
    per = prop.per_goal(tier)
    known = registry.load_known(pid)
    res = vc.run_goals(ok, d, seed, jobs, per, max(30, total - (time.time() - t0)), lambda r: any(registry.match_known(known, v) is None for v in r['violations']))
    viol = [v for r in res for v in r['violations']]
    undec = [r for r in res if r['status'] == 'undecided']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay-%s-*.json' % pid)): os.unlink(f)
    printed = 0; kprinted = set()
    for v in viol:
        k = registry.match_known(known, v)
        if k is not None:
            if k['id'] not in kprinted:
                kprinted.add(k['id']); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            continue
        path = os.path.join(VERIF, 'evidence', 'replay-%s-%d.json' % (pid, printed))
        with open(path, 'w') as f: json.dump(dict(property=pid, how='./replay %s' % path, **v), f, indent=1)
        if printed < 20:
            print('  %s: %s inputs=%s outputs=%s (%s)' % (v['goal'], v['what'], v['inputs'], v['outputs'], v['native']))
        if printed == 0: first = path
        printed += 1
    funcs = sorted({f for r in res for f in r['funcs']})
    q = lambda k: sum(r.get(k, 0) for r in res)
    cov = dict(
        states=q('states'), transitions=q('transitions'), traces_validated_against_impl=q('validated'),
        samples=[r['sample'] for r in res if 'sample' in r][:6],
        goals=len(goals), goals_held=sum(r['status'] == 'held' for r in res), goals_violated=sum(r['status'] == 'violated' for r in res),
        goals_undecided=[dict(goal=r['goal'], notes=[n[-200:] for n in r['notes'][:3]]) for r in undec][:60], goals_not_built=[dict(goal=g.name, error=g.tu.error[-300:]) for g in bad][:10],
        instructions_encoded=q('instr'), functions_encoded=len(funcs), functions=[f[:160] for f in funcs][:120],
        queries=q('queries'), queries_unsat=q('unsat'), queries_sat=q('sat'), queries_unknown=q('unknown'), solver_s=round(q('solver_s'), 2), replays=q('replays'),
        encoding_mismatches=q('mismatches'), max_loop_iterations=max([r['unwind'] for r in res] or [0]),
        bounds=prop.bounds(tier), outside_bounds=prop.outside, build_s=round(tb, 1),
        meaning='states: basic-block instances executed symbolically; transitions: control-flow edges followed; traces_validated_against_impl: concrete vectors on which the encoding and the compiled code agreed',
        notes=[('%s: %s' % (r['goal'], n))[:300] for r in res for n in r['notes'] if r['status'] != 'undecided'][:30])
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=printed)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d goals, %d held, %d undecided, %d not built; %d queries (%d unsat, %d sat, %d unknown), solver %.1f s, wall %.1f s' % (
        pid, tier, len(goals), cov['goals_held'], len(undec), len(bad), cov['queries'], cov['queries_unsat'], cov['queries_sat'], cov['queries_unknown'], cov['solver_s'], ev['wall_s']))
    if undec: print('  undecided: ' + ', '.join(r['goal'] for r in undec)[:1500])
    if bad: print('  not built: ' + ', '.join(g.name for g in bad)[:600]); print(bad[0].tu.error[-600:], file=sys.stderr)
    if printed:
        print('VIOLATION property=%s replay=%s' % (pid, first))
        return 1
    if not ok or not any(r['status'] == 'held' for r in res): return 2
    return 0

main()
