"""developer entry: prove.py CID [filter]"""
import sys, importlib, time
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from rsv import loader, spec
import os
L = loader.Loader(os.environ.get("RSV_REPO", "/repo"))
for cid in sys.argv[1].split(","):
    importlib.import_module("specs." + cid.lower()).register(L)
    t = time.time()
    per = spec.run_check(spec.CHECKS[cid], sys.argv[2] if len(sys.argv) > 2 else None, verbose=True)
    print(cid, "obligations", sum(p[1] for p in per), "failed", sum(p[2] for p in per), "%.1fs" % (time.time() - t), "z3", spec.RT.solver_calls, "%.1fs" % spec.RT.solver_s)
