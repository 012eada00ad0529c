from h import *
from scipy.special import gammaln
from scipy.stats import multivariate_normal
from robuststats.estimation import covariance as M
from robuststats.estimation.base import RealEmpiricalCovariance
from copy import deepcopy


def lt(X, C, df, cplx):
    p = C.shape[0]
    D = 2 * p if cplx else p
    d = np.real(np.einsum("ni,ij,nj->n", X.conj(), la.inv(C), X))
    ld = np.linalg.slogdet(C)[1]
    c = gammaln((df + D) / 2) - gammaln(df / 2) - D / 2 * np.log(df * np.pi)
    if cplx:
        return c - ld + p * np.log(2) - (df + D) / 2 * np.log1p(2 * d / df)
    return c - ld / 2 - (df + D) / 2 * np.log1p(d / df)


def snap(e):
    return {k: deepcopy(v) for k, v in vars(e).items() if isinstance(v, (np.ndarray, int, float, str, type(None), bool))}


def same(e, s, msg):
    t = snap(e)
    ok(set(t) == set(s) and all(np.array_equal(t[k], s[k]) if isinstance(s[k], np.ndarray) else t[k] == s[k] or t[k] is s[k] for k in s), msg + ": score leaves the fitted state as it was")


def prob(rng, cplx):
    p = int(rng.integers(2, 6))
    return p, data(rng, int(rng.integers(p + 4, 40)), p, cplx), data(rng, int(pick(rng, [1, 2, 3, 17])), p, cplx)


@case("C25", 80)
def student(rng):
    cplx = bool(rng.integers(2))
    p, X, T = prob(rng, cplx)
    df = float(pick(rng, [.5, 1, 3, 10, 200]))
    e = (M.ComplexCenteredStudentMLE if cplx else M.CenteredStudentMLE)(df, iter_max=int(pick(rng, [0, 1, 5, 50])))
    ok(e.score(T) is None, "score before fitting is None")
    e.fit(X, **({} if rng.integers(2) else {"init": randpd(rng, p, cplx, cond=10)}))
    s = snap(e)
    if cplx and rng.integers(4) == 0:
        T = np.real(T)
    for _ in range(2):
        v = e.score(T)
        close(v, np.sum(lt(T, e.covariance_, df, cplx)), "Student score", rtol=1e-7, atol=1e-6)
        ok(np.isrealobj(v) and np.ndim(v) == 0, "a real number")
        same(e, s, "Student")


@case("C25", 80)
def gaussian(rng):
    p, X, T = prob(rng, False)
    if len(T) < 2:
        raise Skip()
    X = X + rng.normal(size=p) * pick(rng, [0, 1, 5])
    which = pick(rng, ["tyler", "empirical"])
    if which == "tyler":
        e = M.TylerShapeMatrix(normalisation=pick(rng, ["None", "trace", "determinant", "element"]), iter_max=int(pick(rng, [1, 4, 50])))
        m = np.zeros(p)
    else:
        c = bool(rng.integers(2))
        e = RealEmpiricalCovariance(assume_centered=c, store_precision=bool(rng.integers(2)))
        m = np.zeros(p) if c else X.mean(0)
    e.fit(X)
    s = snap(e)
    cond = la.cond(e.covariance_)
    if cond > 1e7:
        raise Skip()
    want = np.mean(multivariate_normal(m, e.covariance_).logpdf(T))
    for _ in range(2):
        close(e.score(T) if which != "tyler" or rng.integers(2) else e.score(T, model="Gaussian"), want, which + " score", rtol=1e-9 * cond + 1e-8, atol=1e-9)
        same(e, s, which)


@case("C25", 10)
def refused(rng):
    p, X, T = prob(rng, bool(rng.integers(2)))
    cplx = np.iscomplexobj(X)
    e = (M.ComplexTylerShapeMatrix if cplx else M.TylerShapeMatrix)()
    h = (M.ComplexHuberMEstimator if cplx else M.HuberMEstimator)(.9)
    if rng.integers(2):
        e.fit(X)
        h.fit(X)
    for m in ("gaussian", "Student", "", None):
        raises(NotImplementedError, lambda: e.score(T, model=m), "unknown model")
    raises(NotImplementedError, lambda: h.score(T), "Huber score")
