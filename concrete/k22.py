from h import *
from robuststats.estimation import covariance as M


def tc(X, Q):
    d = np.einsum("ni,ij,nj->n", X, la.inv(Q), X)
    return X.shape[1] * np.sum(np.log(d)) + len(X) * np.linalg.slogdet(Q)[1]


def S(nm, A):
    p = len(A)
    return {"trace": lambda: np.trace(A) / p, "determinant": lambda: np.real(la.det(A)) ** (1 / p), "element": lambda: A[0, 0]}.get(nm, lambda: 1)()


def near(rng, m):
    return randpd(rng, m, False, cond=20)


@case("C22", 60)
def naturalgradient(rng):
    cplx = bool(rng.integers(2))
    p = int(rng.integers(1, 6))
    n = int(rng.integers(1, 20))
    X = data(rng, n, p, cplx) * pick(rng, [1, 1, 10, 1e-3])
    if np.min(la.norm(X, axis=1)) < 1e-8:
        raise Skip()
    m = 2 * p if cplx else p
    Y = np.hstack([X.real, X.imag]) if cplx else X
    Y = Y / la.norm(Y, axis=1)[:, None]
    nm = pick(rng, ["None", "trace", "determinant", "element"])
    init = randpd(rng, p, cplx, cond=20) if rng.integers(2) else None
    Z = near(rng, m)
    if cplx and rng.integers(2):
        C = randpd(rng, p, True, cond=20)
        Z = np.block([[C.real, -C.imag], [C.imag, C.real]]) / 2
    seen = []
    real = M.SteepestDescent.solve

    def solve(self, problem, x=None, **k):
        seen.append((problem, None if x is None else np.array(x)))
        pb = problem
        ok(pb.manifold.__class__.__name__ == "SymmetricPositiveDefinite" and pb.manifold.rand().shape == (m, m), "manifold")
        for _ in range(2):
            Q = near(rng, m)
            close(pb.cost(Q), tc(Y, Q), "cost handed to the optimiser", rtol=1e-9, atol=1e-8)
            E = rng.normal(size=(m, m))
            E = E + E.T
            gi = la.inv(Q)
            u = Y @ gi
            d = np.sum(u * Y, 1)
            G = n * gi - m * (u / d[:, None]).T @ u
            g = pb.egrad(Q)
            close((g + g.T) / 2, G, "gradient handed to the optimiser", rtol=1e-8, atol=1e-8 * n * la.norm(gi))
        return Z.copy()
    M.SteepestDescent.solve = solve
    kw = {} if init is None else {"init": init}
    try:
        if rng.integers(2):
            f = M.complex_tyler_shape_matrix_naturalgradient if cplx else M.tyler_shape_matrix_naturalgradient
            sigma, c, it = f(X, normalisation=nm, **kw)
        else:
            e = (M.ComplexTylerShapeMatrix if cplx else M.TylerShapeMatrix)(method="natural gradient", normalisation=nm)
            ok(e.fit(X, **kw) is e, "fit returns the estimator")
            sigma, c, it = e.covariance_, e.err_, e.iteration_
    finally:
        M.SteepestDescent.solve = real
    ok(len(seen) == 1, "one optimisation")
    x = seen[0][1]
    if init is None:
        ok(x is None, "start left to the optimiser")
    else:
        close(x, np.block([[init.real, -init.imag], [init.imag, init.real]]) / 2 if cplx else init, "start", rtol=1e-12)
    if cplx:
        W = 2 * Z[:p, :p] + 2j * Z[p:, :p]
        W = (W + W.conj().T) / 2
        if nm == "determinant" and np.real(la.det(W)) <= 0:
            raise Skip()
    else:
        W = Z
    ok(it is None, "no iteration count")
    close(c, -tc(Y, Z), "minus the cost at the optimum", rtol=1e-8, atol=1e-7)
    close(sigma, W / S(nm, W), "the optimum divided by its normalisation", rtol=1e-8)
