"""replay FILE: run the real code on the inputs of a reported violation and judge the result by the specification of its goal"""
import os, sys, json, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'checks')]
import vc, registry

def main():
    r = json.load(open(sys.argv[1]))
    d = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        prop = registry.PROPS[r['property']]
        for tier in ('quick', 'thorough'):
            g = next((g for g in prop.goals(tier, d) if g.name == r['goal']), None)
            if g: break
        vc.build_all([g.tu], d)
        if g.tu.error: print(g.tu.error); return 2
        vals = [int(r['inputs'][n], 16) for n, w, k in g.ins]
        run = vc.GoalRun(g, d, 1, 60)
        bad = 0
        for how, so in run.natives():
            o = vc.native_batch(so, g.fn, len(g.ins), g.nout, [g.conc64(vals)])[0]
            s = vc.spec_on(g, vals, o)
            print('%-10s %s(%s) -> %s : %s' % (how, g.fn, ', '.join('%s=%#x' % (n, v) for (n, w, k), v in zip(g.ins, vals)), o if isinstance(o, str) else [hex(x) for x in o],
                                               {True: 'as specified', False: 'VIOLATES the specification (%s)' % g.what, None: 'undetermined'}[s]))
            bad |= s is False
        return 1 if bad else 0
    finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(main())
