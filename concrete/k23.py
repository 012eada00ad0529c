from h import *
from robuststats.estimation import structured as ST


def geo(M, G):
    """geometric mean, by eigendecompositions"""
    def f(A, e):
        w, V = la.eigh((A + A.conj().T) / 2)
        return (V * w ** e) @ V.conj().T
    h, ih = f(M, .5), f(M, -.5)
    return h @ f(ih @ G @ ih, .5) @ h


def step(X, a, b, A, B):
    n = len(X)
    M = [x.reshape(a, b).T for x in X]          # column-major b x a: entry (k, l) is x[k + l b]
    d = lambda A, B: [np.real(x.conj() @ la.solve(np.kron(A, B), x)) for x in X]
    q = d(A, B)
    ib = la.inv(B)
    GA = a / n * sum((m.conj().T @ ib @ m).T / s for m, s in zip(M, q))
    A2 = geo(A, GA)
    q = d(A2, B)
    GB = b / n * sum(m @ la.inv(A2).T @ m.conj().T / s for m, s in zip(M, q))
    B2 = geo(B, GB)
    r = lambda u, v: la.norm(u - v) / la.norm(v)
    return A2, B2, max(r(A2, A), r(B2, B))


def prob(rng):
    a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    n = int(rng.integers(a * b + 2, 3 * a * b + 12))
    return a, b, n, data(rng, n, a * b, bool(rng.integers(4)))


@case("C23", 60)
def iterates(rng):
    a, b, n, X = prob(rng)
    if rng.integers(5) == 0 and np.isrealobj(X):
        X = np.rint(4 * X / np.max(np.abs(X))).astype(int)
        if np.min(np.abs(X).sum(1)) == 0:
            raise Skip()
    tol = float(pick(rng, [0, 1e-3, .05, .3, 1e9, -1]))
    itm = int(pick(rng, [0, 1, 2, 3, 7]))
    C = X.conj().T @ X / n
    if la.cond(C) > 1e6:
        raise Skip()
    A, B, err, k = np.eye(a), np.eye(b), np.inf, 0
    while k < itm and err > tol:
        A, B, err = step(X, a, b, A, B)
        k += 1
        if abs(err - tol) < 1e-6 * (1 + tol) and tol > 0 or err < 1e-7 and tol == 0:
            raise Skip()        # the rule is decided by rounding
        if la.cond(A) * la.cond(B) > 1e7:
            raise Skip()
    r = ST.estimation_cov_kronecker_MM(X, a, b, **({"tol": tol, "iter_max": itm}))
    ok(isinstance(r, tuple) and len(r) == 4, "returns A, B, error, count")
    ok(r[3] == k, "count", got=r[3], expected=k)
    close(r[0], A, "A after %d steps" % k, rtol=1e-6)
    close(r[1], B, "B after %d steps" % k, rtol=1e-6)
    if k == 0:
        ok(np.isinf(r[2]), "error is infinite when no iteration ran")
    else:
        close(r[2], err, "error of the last step", rtol=1e-5, atol=1e-8)


@case("C23", 40)
def sizes_and_fit(rng):
    a, b, n, X = prob(rng)
    for u, v in ((a + 1, b), (a, b + 1), (a * b, 2), (2 * a, b)):
        if u * v != a * b:
            ok(ST.estimation_cov_kronecker_MM(X, u, v) is None, "None for incompatible sizes")
    if not np.iscomplexobj(X):
        X = X + 1j * data(rng, n, a * b, False)
    if la.cond(X.conj().T @ X) > 1e6:
        raise Skip()
    tol, itm = float(pick(rng, [1e-2, .1, 1e-4])), int(pick(rng, [1, 3, 20]))
    e = ST.KroneckerEllipticalMM(a, b, tol, itm, store_precision=bool(rng.integers(2)))
    ok(e.fit(X) is e, "fit returns the estimator")
    A, B, _, _ = ST.estimation_cov_kronecker_MM(X, a, b, tol=tol, iter_max=itm)
    close(e.A_, A, "A_", rtol=1e-12)
    close(e.B_, B, "B_", rtol=1e-12)
    close(e.covariance_, np.kron(A, B), "covariance_ = A_ kron B_", rtol=1e-12)
