"""tools/dbg.py MODULE CONTRACT [N] [--tb]: verify one contract and dump the first N open obligations."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyvc.boot  # noqa
import importlib, logging, traceback
mod, name = sys.argv[1:3]
importlib.import_module('contracts.' + mod)
import pyvc.contract as C
logging.disable(50)
c = [c for c in C.CONTRACTS if c.name == name][0]
od = C.discharge
left = [int(sys.argv[3]) if len(sys.argv) > 3 else 0]


def d(vm, ctx, goal, tmo, cross=False):
    r = od(vm, ctx, goal, 5, cross)
    if r[0] != 'proved' and left[0] > 0:
        print('=====', r[0])
        for e in ctx:
            print('  C', str(e).replace('\n', ' ')[:900])
        print('  G', str(C.simp(goal))[:4000])
        if r[3] is not None and '--model' in sys.argv:
            print(r[3])
        left[0] -= 1
    return r


C.discharge = d
if '--tb' in sys.argv:
    from pyvc.engine import Engine
    oe = Engine.explore
    depth = [0]

    def ex(self, *a, **k):
        try:
            return oe(self, *a, **k)
        except Exception:
            if depth[0] == 0:
                depth[0] = 1
                traceback.print_exc()
            raise
    Engine.explore = ex
v = C.verify(c)
print(v.unsupported, 'paths', v.paths, 'reach', v.reach, 'wall', round(v.wall, 2), 'solver', round(v.solver_time, 2), 'incomplete', v.incomplete_code, v.incomplete)
for o in v.obls:
    if o.status != 'proved' or o.secs > 1 or '-a' in sys.argv:
        print(o.name, o.path, o.status, o.solver, round(o.secs, 2), o.detail)
