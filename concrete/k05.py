from h import *
from robuststats.utils import linalg as L


@case("C05", 250)
def spectral(rng):
    n = int(pick(rng, [1, 1, 2, 2, 3, 3, 4, 6, 10]))
    cplx = bool(rng.integers(2))
    C = randpd(rng, n, cplx, cond=10 ** rng.uniform(0, 4), scale=pick(rng, [1, 1, 1e-5, 1e4, 1e-11, 1e-16, 1e10]))
    r = rng.integers(8)
    if r == 0:
        C = np.eye(n) * (1 + 0j if cplx else 1.) * pick(rng, [1, 3., 1e-3])
    if r == 1 and n > 1:      # repeated eigenvalues
        q = randunit(rng, n, cplx)
        d = np.ones(n); d[0] = 4.
        C = herm((q * d) @ q.conj().T)
    if r == 2:
        d = np.sort(rng.uniform(.1, 3, n))[::-1]
        C = np.diag(d).astype(complex if cplx else float)
    C = layout(rng, C)
    ro = RO(C)
    ag = bool(rng.integers(2))
    kw = pick(rng, [{}, {"autograd": ag}])
    a, b = float(pick(rng, [2, -1, .5, 0, 1, 3, -2, .3, 1 / 3])), float(rng.uniform(-1.5, 1.5))
    sc = la.norm(C, 2)
    cd = la.cond(C)
    t = 1e-11 * cd
    S, R, G, E = L.sqrtm(C, **kw), L.invsqrtm(C, **kw), L.logm(C, **kw), None
    close(S, spec(C, np.sqrt), "sqrtm", rtol=t)
    close(R, spec(C, lambda w: 1 / np.sqrt(w)), "invsqrtm", rtol=t)
    close(G, spec(C, np.log), "logm", rtol=t, atol=1e-10)
    close(L.powm(C, a, **kw), spec(C, lambda w: w ** a), "powm(%g)" % a, rtol=t * max(1, cd ** (abs(a) - 1)))
    Hn = C / sc * pick(rng, [1, 3])
    close(L.expm(Hn, **kw), spec(Hn, np.exp), "expm", rtol=1e-10)
    K = randherm(rng, n, cplx)
    close(L.expm(K, **kw), spec(K, np.exp), "expm of a Hermitian matrix", rtol=1e-10)
    for nm, M in (("sqrtm", S), ("invsqrtm", R), ("logm", G)):
        close(M, M.conj().T, nm + " Hermitian", rtol=1e-9, atol=1e-10)
        ok(np.iscomplexobj(M) == cplx, nm + ": complex iff the argument is")
    close(S @ S, C, "sqrtm(C)^2 = C", rtol=1e-10)
    close(R @ C @ R, np.eye(n), "invsqrtm(C) C invsqrtm(C) = I", rtol=t)
    close(L.expm(G, **kw), C, "expm(logm(C)) = C", rtol=1e-9 * (1 + abs(np.log(sc))))
    close(L.powm(C, .7) @ L.powm(C, -.2), L.powm(C, .5), "powm law", rtol=1e-11 * cd)
    close(L.powm(C, b) @ L.powm(C, 1 - b), C, "powm law", rtol=1e-10 * cd ** (max(abs(b), abs(1 - b))))
    ro.check()
