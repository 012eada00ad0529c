#!/usr/bin/env python3
"""check.py CID [--tier quick|thorough]     decides one property on the current /repo

 1. contract proofs: every scenario of specs/<cid>.py is discharged on the instrumented source of /repo (one process each);
 2. runtime contracts (bounded): concrete/k<NN>.py runs the real code on seeded inputs against the same contracts and
    searches for a failing input when an obligation is not discharged.
exit 0: all obligations discharged and no contract broken.  exit 1: VIOLATION line.  Never anything else."""
import json
import os
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
PYVT = "/opt/veriftools/pyvenv/bin/python"
if not os.environ.get("RSV_INNER"):
    os.environ["RSV_INNER"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PYVT, [PYVT, "-B", os.path.abspath(__file__)] + sys.argv[1:])

import argparse
import importlib
import multiprocessing as mp
import resource
import signal
import traceback

sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("RSV_REPO", "/repo")
REAL = "/opt/venv/bin/python"
NPROC = int(os.environ.get("RSV_JOBS", "0")) or min(8, os.cpu_count() or 1)


def worker(spec, ch, i, conn):
    from rsv import loader
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    t = time.time()
    name, fn, kw = ch.scen[i]
    RT = spec.RT
    RT.reset_all()
    loader.RSVns.entered = {}
    try:
        spec.run_scenario(ch, name, fn, kw)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        RT.oblige("engine", False, "%s: %s at %s" % (type(e).__name__, e, ["%s:%d" % (x.filename, x.lineno) for x in tb[-4:]]), "engine")
    conn.send({"scenario": name, "obl": RT.obl, "wall": time.time() - t, "solver_s": RT.solver_s, "solver_calls": RT.solver_calls, "paths": RT.paths,
               "functions": loader.RSVns.entered, "bounded": kw.get("bounded")})
    conn.close()
    os._exit(0)


class Proofs:
    """runs the scenarios, at most NPROC at a time"""

    def __init__(self, cid, limit):
        self.cid, self.limit = cid, limit
        self.t0 = time.time()
        self.res = []
        self.running = []
        self.todo = []
        self.spec = self.ch = None
        self.err = None
        self.files = {}
        try:
            from rsv import loader, spec
            self.spec = spec
            L = self.L = loader.Loader(REPO)
            importlib.import_module("specs." + cid.lower()).register(L)
            self.ch = spec.CHECKS[cid]
            self.todo = list(range(len(self.ch.scen)))
        except BaseException as e:
            self.err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-8))

    def pump(self, slots):
        now = time.time()
        for r in list(self.running):
            p, c, i, t = r
            got = None
            if c.poll(0):
                try:
                    got = c.recv()
                except (EOFError, OSError):
                    got = self.lost(i, "worker ended without a result (memory or crash)")
            elif not p.is_alive():
                got = self.lost(i, "worker ended without a result (memory or crash)")
            elif now - self.t0 > self.limit:
                p.kill()
                got = self.lost(i, "time limit of %d s" % self.limit)
            if got is not None:
                self.res.append(got)
                self.running.remove(r)
                p.join(5)
                if p.is_alive():
                    p.kill()
        while self.todo and len(self.running) < slots:
            if now - self.t0 > self.limit:
                for i in self.todo:
                    self.res.append(self.lost(i, "time limit of %d s" % self.limit))
                self.todo = []
                break
            i = self.todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(self.spec, self.ch, i, b))
            p.start()
            b.close()
            self.running.append((p, a, i, now))

    def lost(self, i, why):
        n = self.ch.scen[i][0]
        return {"scenario": n, "obl": [{"scenario": n, "name": "engine", "ok": False, "detail": why, "backend": "engine", "facts": []}], "wall": 0, "solver_s": 0, "solver_calls": 0,
                "paths": 0, "functions": {}, "bounded": None}

    @property
    def done(self):
        return not self.todo and not self.running


class Concrete:
    def __init__(self, cid, seed, tier, shards, budget, extra=()):
        self.procs = []
        env = dict(os.environ, RSV_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
        for k in range(shards):
            f = os.path.join(HERE, "evidence", ".%s.%d.%d.%s.out" % (cid, os.getpid(), k, tier))
            o = open(f, "wb")
            p = subprocess.Popen([REAL, "-B", os.path.join(HERE, "concrete", "run.py"), cid, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (k, shards), "--budget", str(budget)] + list(extra),
                                 stdout=o, stderr=subprocess.DEVNULL, env=env, cwd=HERE, start_new_session=True)
            o.close()
            self.procs.append((p, f))
        self.deadline = time.time() + budget * 1.3 + 60

    @property
    def done(self):
        if time.time() > self.deadline:
            for p, _ in self.procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        p.kill()
            return True
        return all(p.poll() is not None for p, _ in self.procs)

    def result(self):
        r = {"evaluations": 0, "skipped": 0, "cases": {}, "broken": [], "lost": 0, "wall_s": 0, "cut": False, "error": None}
        for p, f in self.procs:
            p.wait()
            try:
                d = json.loads(open(f).read())
            except Exception:
                r["lost"] += 1
                d = None
            try:
                os.unlink(f)
            except OSError:
                pass
            if d:
                r["evaluations"] += d["evaluations"]
                r["skipped"] += d["skipped"]
                r["wall_s"] += d.get("wall_s", 0)
                r["cut"] = r["cut"] or d.get("cut", False)
                for k, v in d["cases"].items():
                    r["cases"][k] = r["cases"].get(k, 0) + v
                r["broken"] += d["broken"]
        return r


def known(cid):
    """listed findings: 'finding: property=C07 id=<id> <text>' ; a fixed: line suppresses nothing"""
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            if l.startswith("finding: property=%s " % cid):
                out.append(l[len("finding: "):].strip())
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--noproof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    cid, tier = a.cid, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    t0 = time.time()
    thorough = tier == "thorough"
    P = Proofs(cid, 560)
    con = Concrete(cid, seed, tier, 6 if thorough else 2, 500 if thorough else 40)
    while not (P.done and con.done):
        P.pump(NPROC)
        time.sleep(0.02)
    C = con.result()
    obl, bad, bounded = [], [], []
    scen = []
    fns = {}
    sol_s = sol_n = paths = 0
    order = {s[0]: i for i, s in enumerate(P.ch.scen)} if P.ch else {}
    for r in sorted(P.res, key=lambda r: order.get(r["scenario"], 0)):
        tgt = bounded if r["bounded"] else obl
        tgt += r["obl"]
        bad += [o for o in r["obl"] if not o["ok"]]
        scen.append({"scenario": r["scenario"], "obligations": len(r["obl"]), "failed": sum(not o["ok"] for o in r["obl"]), "paths": r["paths"], "wall_s": round(r["wall"], 2), **({"bounded": r["bounded"]} if r["bounded"] else {})})
        for k, v in r["functions"].items():
            fns[k] = fns.get(k, 0) + v
        sol_s += r["solver_s"]
        sol_n += r["solver_calls"]
        paths += r["paths"]
    if P.err:
        bad.append({"scenario": "load", "name": "the source loads in the verifier", "ok": False, "detail": P.err, "backend": "subset", "facts": []})
    elif not obl and not bounded:
        bad.append({"scenario": "all", "name": "non-vacuous", "ok": False, "detail": "no obligation", "backend": "vacuity", "facts": []})
    if C["lost"] or not C["evaluations"]:
        if not C["broken"]:
            C["error"] = "%d of the runtime-contract processes gave no result" % C["lost"]
    # an undischarged obligation: look for a failing input on the real code
    search = None
    if bad and not C["broken"]:
        left = 840 - (time.time() - t0)
        b = max(20, min(150, left - 100))
        con2 = Concrete(cid, seed + 7919, "search", NPROC, b)
        while not con2.done:
            time.sleep(0.05)
        search = con2.result()
        C["broken"] = search["broken"]
    viol = []
    if bad or C["broken"] or C["error"]:
        rep = {"property": cid, "repo": REPO, "failed_obligations": [{k: o[k] for k in ("scenario", "name", "detail", "backend", "facts")} for o in bad[:30]],
               "failing_inputs": C["broken"][:10],
               "replay": ["%s /verif/concrete/run.py %s --seed %d --case %s --index %d" % (REAL, cid, b["seed"], b["case"], b["index"]) for b in C["broken"][:10]],
               "search": search and {k: search[k] for k in ("evaluations", "cases", "lost")}, "error": C["error"]}
        path = os.path.join(HERE, "evidence", "%s.replay.json" % cid)
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        line = "VIOLATION property=%s replay=%s" % (cid, path)
        if not C["broken"]:
            line += " no-failing-input-found"
        viol.append(line)
    from specs import trusted
    info = trusted.info(cid)
    by = {}
    for o in obl:
        if o["ok"]:
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "proof" if obl or not bounded else "other",
          "coverage": {**({} if obl or not bounded else {"explanation": "every obligation of this property is discharged only within a stated bound (see bounded_obligations.bounds), so none is counted as proved"}), "obligations": len(obl), "discharged": sum(o["ok"] for o in obl), "discharged_by_back_end": by,
                       "checker_cmd": "python3 check.py %s --tier %s" % (cid, tier), "trusted_base": info["trusted"],
                       "functions_under_contract": sorted(k for k in fns if k.startswith("robuststats.")),
                       "third_party_source_executed": sorted(k for k in fns if not k.startswith("robuststats.")),
                       "source_sha256": {os.path.relpath(k, REPO): v for k, v in (P.L.files.items() if not P.err else []) if k.startswith(REPO)},
                       "paths": paths, "z3_calls": sol_n, "z3_seconds": round(sol_s, 2), "scenarios": scen,
                       "bounded_obligations": {"obligations": len(bounded), "discharged": sum(o["ok"] for o in bounded), "bounds": sorted({s["bounded"] for s in scen if s.get("bounded")})},
                       "runtime_contracts_bounded": {"evaluations": C["evaluations"], "cases": C["cases"], "skipped": C["skipped"], "cut_by_budget": C["cut"], "note": "bounded: seeded random inputs on the real code; never counted as proved"},
                       "samples": [o["scenario"] + " | " + o["name"] for o in (obl or bounded)[:: max(1, len(obl or bounded) // 12)]][:12]},
          "assumptions": info["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if not P.err:
        del P.L
    with open(os.path.join(HERE, "evidence", "%s.json" % cid), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known(cid):
        print("KNOWN-FINDING: " + k)
    print("%s: %d/%d obligations discharged (%s)%s, z3 %d calls %.1f s; runtime contracts: %d evaluations, %d broken; %.1f s" % (
        cid, sum(o["ok"] for o in obl), len(obl), ", ".join("%s %d" % kv for kv in sorted(by.items())), ", %d/%d bounded" % (sum(o["ok"] for o in bounded), len(bounded)) if bounded else "", sol_n, sol_s, C["evaluations"], len(C["broken"]), time.time() - t0))
    for o in bad[:8]:
        print("  undischarged: [%s] %s (%s): %s" % (o["scenario"], o["name"], o["backend"], o["detail"][:400].replace("\n", " ")))
    for b in C["broken"][:5]:
        print("  failing input: case %s index %d seed %d: %s" % (b["case"], b["index"], b["seed"], b["what"][:400].replace("\n", " ")))
    if a.v:
        for s in scen:
            print("   %6.2fs %4d obl %d failed  %s" % (s["wall_s"], s["obligations"], s["failed"], s["scenario"]))
    for l in viol:
        print(l)
    sys.stdout.flush()
    for p, _, _, _ in P.running:
        p.kill()
    os._exit(1 if viol else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        cid = sys.argv[1] if len(sys.argv) > 1 else "?"
        path = os.path.join(HERE, "evidence", "%s.replay.json" % cid)
        try:
            open(path, "w").write(json.dumps({"property": cid, "error": traceback.format_exc()}))
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (cid, path))
        sys.stdout.flush()
        os._exit(1)
