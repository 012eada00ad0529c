from h import *
from robuststats.estimation.covariance import get_normalisation_function as G


@case("C07", 250)
def normalisation(rng):
    n = int(pick(rng, [1, 2, 2, 3, 5, 9, 20]))
    cplx = bool(rng.integers(2))
    C = layout(rng, randpd(rng, n, cplx, cond=10 ** rng.uniform(0, 3), scale=10. ** rng.uniform(-3, 3)))
    ro = RO(C)
    c = 10. ** rng.uniform(-4, 4)
    w = la.eigvalsh(C)
    want = {"trace": w.mean(), "determinant": np.exp(np.log(w).mean()), "element": C[0, 0]}
    for k in want:
        f = G(k)
        v = f(C)
        ok(np.ndim(v) == 0, "scalar")
        close(v, want[k], "normalisation by " + k, rtol=1e-8)
        close(f(c * C), c * v, k + " is homogeneous of degree one", rtol=1e-8)
        Z = C / v
        g = {"trace": np.trace(Z) - n, "determinant": np.exp(np.log(la.eigvalsh(Z)).sum()) - 1, "element": Z[0, 0] - 1}[k]
        close(g, 0, k + ": normalised", rtol=0, atol=1e-7 * n)
        close((c * C) / f(c * C), Z, k + ": scale independent", rtol=1e-8)
    for k in (None, "None", "foo", "Trace", "", "det", 3):
        f = G(k)
        close(f(C), 1, "no normalisation for %r" % (k,))
    close(G()(C), 1, "no normalisation by default")
    ro.check()
