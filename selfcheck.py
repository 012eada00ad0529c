"""Validates the engine: rewrite steps performed while proving a property are evaluated numerically at random concrete
sizes and values, by the independent evaluator rsv/numeric.py.   python3-vt selfcheck.py C01[,C02] [every=N] [filter]
A wrong rewrite rule (an equality the prover uses that is not an identity) shows up as MISMATCH."""
import sys, os, importlib, time, collections, random, traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from rsv import loader, spec, numeric, rt
from rsv import nf as N, poly as PL
import numpy as np
np.seterr(all="ignore")

STAT = collections.Counter()
BAD = []
EVERY = 50
DEPTH = [0]
WCACHE = {}


def world():
    ctx = PL.CTX
    c = WCACHE.get("w")
    if c is None or c[0] != ctx.stamp or c[2] > 60:
        w = next(numeric.worlds(ctx), None)
        WCACHE["w"] = c = [ctx.stamp, w, 0]
    c[2] += 1
    if c[1] is not None:
        c[1].left = 60000
        c[1].free = {}
        if len(c[1].memo) > 50000:
            c[1].memo.clear()
            c[1].mats.clear()
    return c[1]


def check(kind, info, lhs, rhs):
    """lhs, rhs: world -> value"""
    if DEPTH[0]:
        return
    DEPTH[0] += 1
    try:
        w = world()
        if w is None:
            STAT[kind + " no world"] += 1
            return
        for attempt in range(3):
            w.free = {}
            w.seedx = attempt
            try:
                a = lhs(w)
                b = rhs(w)
                ok = numeric.close(a, b)
            except numeric.Skip as e:
                STAT[kind + " skipped"] += 1
                return
            except numeric.Budget:
                STAT[kind + " too large"] += 1
                return
            except (IndexError, ValueError, OverflowError, ZeroDivisionError, np.linalg.LinAlgError):
                STAT[kind + " numeric"] += 1
                return
            except AssertionError as e:
                BAD.append((kind, "claim", str(e)[:300], ""))
                return
            if ok:
                STAT[kind + " ok"] += 1
                return
            # confirm in a different world: ill-conditioned values
            w2 = next(numeric.worlds(PL.CTX), None)
            if w2 is None:
                break
            w = w2
        STAT[kind + " MISMATCH"] += 1
        if len(BAD) < 40:
            BAD.append((kind, info(), a, b))
    finally:
        DEPTH[0] -= 1


def pick():
    return not DEPTH[0] and random.random() * EVERY < 1


def install():
    simplify, mk_sp, npow, mk_det, mk_fn, mk_iv, ge0, ispos, renorm, idm = N.simplify, N._mk_sp, N._npow, N.mk_det, N.mk_fn, N.mk_iv, PL.ge0, N._ispos, N.renorm, PL.idivmod

    def s2(raw):
        r = simplify(raw)
        if pick():
            b, f, c = list(raw.bounds), list(raw.facs), raw.c
            check("simplify", lambda: (N.cstr(c), [x.key for x in b], [(x.key, N.ekey(e)) for x, e in f], [(T.key, k) for T, k in r]),
                  lambda w: complex(float(c[0]), float(c[1])) * w.prod(b, f, {"~": 1.37}),
                  lambda w: sum(complex(float(k[0]), float(k[1])) * w.term(T, {"~": 1.37}) for T, k in r))
        return r

    def sp2(g, M, i, j):
        r = mk_sp(g, M, i, j)
        if pick():
            check("spectral", lambda: (g.key, M.key, i.key, j.key, r.key), lambda w: numeric.entry(w.spec(g, M, {}), w.int(i, {}), w.int(j, {})), lambda w: w.nf(r, {}))
        return r

    def p2(n, e):
        r = npow(n, e)
        if pick():
            check("power", lambda: (n.key, N.ekey(e), r.key), lambda w: w.pow(w.nf(n, {"~": 1.37}), e, {"~": 1.37}), lambda w: w.nf(r, {"~": 1.37}))
        return r

    def d2(M):
        r = mk_det(M)
        if pick():
            check("det", lambda: (M.key, r.key), lambda w: np.linalg.det(w.mat(M, {})), lambda w: w.nf(r, {}))
        return r

    def f2(name, args):
        r = mk_fn(name, args)
        if pick():
            aa = [N.toNF(a) for a in args]
            check("function", lambda: (name, [a.key for a in aa], r.key), lambda w: w.fn(name, [w.nf(a, {"~": 1.37}) for a in aa]), lambda w: w.nf(r, {"~": 1.37}))
        return r

    def i2(kind, p):
        r = mk_iv(kind, p)
        if pick():
            check("bracket", lambda: (kind, p.key, r.key), lambda w: int(w.P(p, {}) >= 0 if kind == "ge" else w.P(p, {}) == 0), lambda w: w.nf(r, {}))
        return r

    def g2(p):
        r = ge0(p)
        if r and pick():
            q = PL.toP(p)
            check("order", lambda: (q.key, [f.key for f in PL.CTX.ge]), lambda w: int(w.P(q, {}) >= 0), lambda w: 1)
        return r

    def pos2(n):
        r = ispos(n)
        if r and pick():
            check("positive", lambda: n.key, lambda w: (lambda x: int(x.real > -1e-12 and abs(x.imag) <= 1e-7 * (1 + abs(x))))(complex(w.nf(n, {"~": 1.37}))), lambda w: 1)
        return r

    def r2(n):
        r = renorm(n)
        if pick():
            check("renorm", lambda: (n.key, r.key), lambda w: w.nf(n, {}), lambda w: w.nf(r, {}))
        return r

    def dm2(e, m):
        r = idm(e, m)
        if pick():
            check("divmod", lambda: (PL.toP(e).key, PL.toP(m).key, r[0].key, r[1].key), lambda w: w.int(e, {}) // w.int(m, {}) + 1000 * (w.int(e, {}) % w.int(m, {})), lambda w: w.int(r[0], {}) + 1000 * w.int(r[1], {}))
        return r
    N.simplify, N._mk_sp, N._npow, N.mk_det, N.mk_fn, N.mk_iv, N._ispos, N.renorm = s2, sp2, p2, d2, f2, i2, pos2, r2
    PL.ge0 = N.ge0 = g2
    PL.idivmod = dm2
    pe = rt.prove_eq

    def pe2(a, b):
        r = pe(a, b)
        if r and a.key != b.key and not DEPTH[0]:
            check("equality", lambda: (a.key, b.key), lambda w: w.nf(a, {}), lambda w: w.nf(b, {}))
        return r
    rt.prove_eq = pe2


def main(cids, flt=None, every=50):
    global EVERY
    EVERY = every
    random.seed(int(os.environ.get("VERIF_SEED", "1")))
    install()
    L = loader.Loader(os.environ.get("RSV_REPO", "/repo"))
    for cid in cids:
        importlib.import_module("specs." + cid.lower()).register(L)
        t = time.time()
        per = spec.run_check(spec.CHECKS[cid], flt, verbose=bool(os.environ.get("V")))
        print(cid, "obligations", sum(p[1] for p in per), "failed", sum(p[2] for p in per), "%.0fs" % (time.time() - t), "mismatches", len(BAD), flush=True)
    for k in sorted(STAT):
        print("  %-24s %d" % (k, STAT[k]))
    for b in BAD:
        print("MISMATCH", b[0], str(b[1])[:900], b[2], b[3])
    return 1 if BAD else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    ev = [int(x[6:]) for x in a if x.startswith("every=")]
    a = [x for x in a if not x.startswith("every=")]
    sys.exit(main(a[0].split(","), a[1] if len(a) > 1 else None, ev[0] if ev else 50))
