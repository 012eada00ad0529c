"""run.py CID --seed S --tier T [--shard i/n] [--case NAME --index I]   ->  JSON on stdout"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("RSV_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")


def one(h, cid, name, f, seed, i):
    import logging
    import numpy as np
    rng = h.rng_for(seed, cid, name, i)
    np.random.seed(int(rng.integers(2 ** 31)))
    lg = logging.getLogger()
    lv, hs = lg.level, list(lg.handlers)
    lg.setLevel(logging.WARNING)
    if not hs:
        lg.addHandler(logging.NullHandler())
    try:
        f(rng)
    except h.Skip:
        return "skip"
    except h.Broken as e:
        return {"case": name, "index": i, "seed": seed, "what": str(e)[:3000]}
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return {"case": name, "index": i, "seed": seed, "what": "unexpected %s: %s" % (type(e).__name__, str(e)[:600]), "traceback": tb[-3000:]}
    finally:
        lg.setLevel(lv)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--budget", type=float, default=100)
    ap.add_argument("--case")
    ap.add_argument("--index", type=int)
    a = ap.parse_args()
    devnull = os.open(os.devnull, os.O_WRONLY)
    out = os.dup(1)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    t0 = time.time()
    res = {"cid": a.cid, "cases": {}, "broken": [], "evaluations": 0, "skipped": 0}
    try:
        import h
        importlib.import_module("k" + a.cid[1:])
        import robuststats
        res["package"] = robuststats.__file__
    except Exception as e:
        res["broken"].append({"case": "import", "index": 0, "seed": a.seed, "what": "%s: %s" % (type(e).__name__, e), "traceback": traceback.format_exc()[-3000:]})
        os.write(out, json.dumps(res).encode())
        return
    if a.case:
        for name, f, n in h.CASES[a.cid]:
            if name == a.case:
                r = one(h, a.cid, name, f, a.seed, a.index)
                res["evaluations"] = 1
                if isinstance(r, dict):
                    res["broken"].append(r)
    else:
        si, sn = map(int, a.shard.split("/"))
        mult = {"quick": 2, "thorough": 60, "search": 12}.get(a.tier, 1)
        todo = []
        for name, f, n in h.CASES[a.cid]:
            for i in range(n * mult):
                todo.append((i / (n * mult), name, f, i))
        todo.sort(key=lambda t: t[0])
        failed = {}
        for j, (_, name, f, i) in enumerate(todo):
            if j % sn != si:
                continue
            if time.time() - t0 > a.budget:
                res["cut"] = True
                break
            if failed.get(name, 0) >= 2:
                continue
            r = one(h, a.cid, name, f, a.seed, i)
            if r == "skip":
                res["skipped"] += 1
                continue
            res["evaluations"] += 1
            res["cases"][name] = res["cases"].get(name, 0) + 1
            if r:
                failed[name] = failed.get(name, 0) + 1
                res["broken"].append(r)
    res["wall_s"] = time.time() - t0
    os.write(out, json.dumps(res).encode())


main()
