from h import *
from robuststats.estimation import base as B


@case("C14", 250)
def formula(rng):
    n, p = int(pick(rng, [1, 2, 3, 5, 10, 40])), int(pick(rng, [1, 1, 2, 3, 4, 7]))
    X = layout(rng, (randn(rng, n, p, cplx=True) + randn(rng, p, cplx=True) * pick(rng, [0, 1, 20])) * pick(rng, [1, 1e-3, 50]))
    if rng.integers(6) == 0:
        X = np.real(X) + 0j
    ro = RO(X)
    for ac in (True, False):
        m = np.zeros(p) if ac else X.mean(0)
        Y = X - m
        want = Y.T @ Y.conj() / n
        s = max(np.abs(X).max() ** 2, 1e-300)
        C = B.complex_empirical_covariance(X, assume_centered=ac)
        close(C, want, "complex_empirical_covariance(assume_centered=%s)" % ac, rtol=0, atol=1e-11 * s)
        close(C, C.conj().T, "Hermitian", rtol=0, atol=1e-11 * s)
        ok(la.eigvalsh(herm(C)).min() >= -1e-10 * s, "positive semi-definite")
        sp = bool(rng.integers(2))
        E = B.ComplexEmpiricalCovariance(store_precision=sp, assume_centered=ac)
        if rng.integers(3) == 0:
            E.fit(randn(rng, n + 2, p, cplx=True) + 3)
        r = E.fit(X)
        ok(r is E, "fit returns the estimator")
        close(E.covariance_, want, "covariance_", rtol=0, atol=1e-11 * s)
        ok(np.iscomplexobj(E.covariance_), "complex covariance_")
        close(E.location_, m, "location_", rtol=0, atol=1e-12 * np.sqrt(s) * 10)
        w = la.eigvalsh(herm(want))
        good = w.min() > 1e-7 * w.max() and w.max() > 0
        if sp:
            if good:
                close(E.precision_, la.inv(want), "precision_", rtol=1e-5)
        else:
            ok(E.precision_ is None, "precision_ is None when not stored")
        if good:
            close(E.get_precision(), la.inv(want), "get_precision", rtol=1e-5)
        exact(E.transform(X), E.covariance_, "transform returns the stored covariance")
        exact(E.fit_transform(X), E.covariance_, "fit_transform")
    ro.check()


@case("C14", 150)
def error_norm(rng):
    p = int(pick(rng, [1, 2, 3, 5]))
    X = layout(rng, randn(rng, 30, p, cplx=True))
    E = B.ComplexEmpiricalCovariance(assume_centered=bool(rng.integers(2))).fit(X)
    D = layout(rng, randpd(rng, p, True, cond=10, scale=1))
    ro = RO(D, X)
    for nrm in ("frobenius", "spectral"):
        for sc in (True, False):
            for sq in (True, False):
                v = E.error_norm(D, norm=nrm, scaling=sc, squared=sq)
                ok(np.isrealobj(v) and np.ndim(v) == 0 and v >= 0, "error norm real and non-negative", v=v)
                z = E.error_norm(E.covariance_.copy(), norm=nrm, scaling=sc, squared=sq)
                ok(z == 0, "error norm of the stored covariance is zero", v=z)
                if nrm == "frobenius":
                    w = np.sum(np.abs(D - E.covariance_) ** 2) / (p if sc else 1)
                    close(v, w if sq else np.sqrt(w), "Frobenius error norm", rtol=1e-10)
                else:
                    w = la.norm(D - E.covariance_, 2) ** 2 / (p if sc else 1)
                    close(v, w if sq else np.sqrt(w), "spectral error norm", rtol=1e-8)
    ro.check()


@case("C14", 40)
def vector_input(rng):
    p = int(rng.integers(2, 5))
    x = randn(rng, p, cplx=True)
    close(B.complex_empirical_covariance(x, assume_centered=True), np.outer(x, x.conj()), "one sample given as a vector", rtol=1e-12)
