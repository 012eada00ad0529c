from h import *
from copy import deepcopy
from robuststats.estimation import base as B, covariance as M


def make(rng, cplx):
    if cplx:
        fs = [lambda: B.ComplexEmpiricalCovariance(assume_centered=bool(rng.integers(2))), lambda: M.ComplexTylerShapeMatrix(iter_max=5, normalisation=pick(rng, ["None", "trace"])),
              lambda: M.ComplexCenteredStudentMLE(3, iter_max=5), lambda: M.ComplexHuberMEstimator(.8, iter_max=5)]
    else:
        fs = [lambda: B.RealEmpiricalCovariance(assume_centered=bool(rng.integers(2))), lambda: M.TylerShapeMatrix(iter_max=5, normalisation=pick(rng, ["None", "trace"])),
              lambda: M.CenteredStudentMLE(3, iter_max=5), lambda: M.HuberMEstimator(.8, iter_max=5)]
    return pick(rng, fs)()


def trials(rng, cplx, t=None):
    t = int(pick(rng, [1, 2, 3, 5, 8])) if t is None else t
    p = int(pick(rng, [1, 2, 3, 4]))
    n = int(pick(rng, [p + 4, p + 9, 20]))
    if rng.integers(4) == 0:
        n = max(n, p + 3)
    X = randn(rng, t, n, p, cplx=cplx) * 10 ** rng.uniform(-1, 1, (t, 1, 1))
    if not cplx and rng.integers(3) == 0:
        X = rng.integers(-20, 20, (t, n, p))
        X[:, :, 0] += (np.abs(X).sum(-1) == 0)
    return layout(rng, X)


@case("C13", 120)
def covariances(rng):
    cplx = bool(rng.integers(2))
    X = trials(rng, cplx)
    est = make(rng, cplx)
    p = X.shape[2]
    kw = {}
    if not isinstance(est, (B.RealEmpiricalCovariance,)) or type(est) not in (B.RealEmpiricalCovariance, B.ComplexEmpiricalCovariance):
        if rng.integers(2):
            kw["init"] = randpd(rng, p, cplx, cond=4, scale=1)
    want = np.stack([deepcopy(est).fit(x, **kw).covariance_ for x in X])
    T = B.CovariancesEstimation(est)
    ok(T.fit(X) is T, "fit returns the transformer")
    ro = RO(X)
    got = T.transform(X, **kw)
    close(got, want, "covariance of each trial", rtol=1e-9)
    got2 = T.transform(X, **kw)
    close(got2, want, "second call", rtol=1e-9)
    perm = rng.permutation(len(X))
    close(B.CovariancesEstimation(make(np.random.default_rng(0), cplx) if False else deepcopy(est)).transform(X[perm], **kw), want[perm], "order kept", rtol=1e-9)
    ro.check()


@case("C13", 4)
def covariances_parallel(rng):
    cplx = bool(rng.integers(2))
    X = trials(rng, cplx, t=int(pick(rng, [1, 2, 5])))
    est = make(rng, cplx)
    p = X.shape[2]
    kw = {"init": randpd(rng, p, cplx, cond=4, scale=1)} if type(est) not in (B.RealEmpiricalCovariance, B.ComplexEmpiricalCovariance) else {}
    want = np.stack([deepcopy(est).fit(x, **kw).covariance_ for x in X])
    close(B.CovariancesEstimation(est, n_jobs=2).transform(X, **kw), want, "covariance of each trial, 2 jobs", rtol=1e-9)


@case("C13", 40)
def covariances_threads(rng):
    """several jobs, threading back end (cheap)"""
    from joblib import parallel_backend
    cplx = bool(rng.integers(2))
    X = trials(rng, cplx)
    est = make(rng, cplx)
    p = X.shape[2]
    kw = {"init": randpd(rng, p, cplx, cond=4, scale=1)} if type(est) not in (B.RealEmpiricalCovariance, B.ComplexEmpiricalCovariance) else {}
    want = np.stack([deepcopy(est).fit(x, **kw).covariance_ for x in X])
    with parallel_backend("threading"):
        for j in (2, 3):
            close(B.CovariancesEstimation(est, n_jobs=j).transform(X, **kw), want, "covariance of each trial, %d jobs" % j, rtol=1e-9)


class Multi:
    """estimator returning a tuple of arrays"""

    def fit_transform(self, x):
        return [np.cov(x.T).reshape(x.shape[1], x.shape[1]), x.mean(0)]


class Scalar:
    def fit_transform(self, x):
        return np.float64(x.sum()) if np.isrealobj(x) else np.complex128(x.sum())


@case("C13", 80)
def features(rng):
    from joblib import parallel_backend
    cplx = bool(rng.integers(2))
    X = trials(rng, cplx)
    if np.isrealobj(X):
        X = X.astype(float)
    which = rng.integers(3)
    est = [make(rng, cplx), Multi(), Scalar()][which]
    ro = RO(X)
    T = B.FeaturesEstimation(est)
    ok(T.fit(X) is T, "fit returns the transformer")
    if rng.integers(4) == 0:
        T.n_jobs = 2
        with parallel_backend("threading"):
            F = T.transform(X)
    else:
        F = T.transform(X)
    ok(len(F) == len(X), "one entry per trial", got=len(F), want=len(X))
    for i, x in enumerate(X):
        w = deepcopy(est).fit_transform(x)
        w = w if isinstance(w, list) else [np.atleast_1d(w)]
        g = F[i].export()
        g = g if isinstance(g, list) else [g]
        ok(len(g) == len(w), "number of parts")
        for a, b in zip(g, w):
            close(a, b, "entry %d" % i, rtol=1e-9)
    ro.check()
