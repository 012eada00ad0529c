from fp import *
from copy import deepcopy
from sklearn.base import clone
from robuststats.estimation import covariance as M
from robuststats.estimation.base import RealEmpiricalCovariance, ComplexEmpiricalCovariance, complex_empirical_covariance
import robuststats.estimation.structured as ST

KIND = {
    "tyler": (M.TylerShapeMatrix, M.tyler_shape_matrix_fixedpoint, False),
    "ctyler": (M.ComplexTylerShapeMatrix, M.complex_tyler_shape_matrix_fixedpoint, True),
    "student": (M.CenteredStudentMLE, M.student_t_mle_fixed_point, False),
    "cstudent": (M.ComplexCenteredStudentMLE, M.complex_student_t_mle_fixed_point, True),
    "huber": (M.HuberMEstimator, M.huber_m_estimator_fixed_point, False),
    "chuber": (M.ComplexHuberMEstimator, M.complex_huber_m_estimator_fixed_point, True),
}


def params(rng, kind):
    d = {"tol": float(pick(rng, [1e-4, 1e-2, .3, 1e-7])), "iter_max": int(pick(rng, [1, 2, 5, 30, 100]))}
    if "tyler" in kind:
        d["normalisation"] = pick(rng, ["None", "trace", "determinant", "element"])
    if "student" in kind:
        d["df"] = float(pick(rng, [.5, 1, 3, 10]))
    if "huber" in kind:
        d["q"] = float(pick(rng, [.3, .6, .9, .99]))
    if rng.integers(3) == 0:
        d["verbosity"] = True
    return d


def functional(kind, X, init, d):
    f = KIND[kind][1]
    e = {k: v for k, v in d.items() if k in ("tol", "iter_max", "normalisation")}
    if "student" in kind:
        return f(X, d["df"], init=init, **e)
    if "huber" in kind:
        return f(X, d["q"], init=init, **e)
    return f(X, init=init, **e)


def check(est, r, X, want, msg):
    S, err, k = want
    ok(r is est, msg + ": fit returns the estimator")
    close(est.covariance_, S, msg + ": covariance_", rtol=1e-9)
    ok(est.iteration_ == k and (k is None) == (est.iteration_ is None), msg + ": iteration_", got=est.iteration_, want=k)
    close(est.err_, err, msg + ": err_", rtol=1e-5, atol=1e-12)
    c = la.cond(S)
    if c < 1e6:
        close(est.precision_, la.inv(S), msg + ": precision_", rtol=1e-9 * c)
        close(est.get_precision(), la.inv(S), msg + ": get_precision()", rtol=1e-9 * c)


def prob(rng, cplx):
    p = int(rng.integers(2, 5))
    X = layout(rng, data(rng, int(rng.integers(p + 3, 30)), p, cplx))
    init = randpd(rng, p, cplx, cond=10, scale=1) if rng.integers(2) else None
    return p, X, init


@case("C11", 200)
def histories(rng):
    kind = pick(rng, list(KIND))
    cls, _, cplx = KIND[kind]
    d = params(rng, kind)
    est = cls(**d)
    hist = []
    for _ in range(int(rng.integers(1, 5))):
        r = rng.integers(6)
        if r == 0:
            d = params(rng, kind)
            d.setdefault("verbosity", False)
            est.set_params(**d)
            hist.append("set_params")
        elif r == 1:
            for k, v in params(rng, kind).items():
                setattr(est, k, v)
                d[k] = v
            hist.append("setattr")
        elif r == 2:
            est = clone(est)
            hist.append("clone")
        elif r == 3:
            old, est = est, deepcopy(est)
            old.tol = 1e9
            old.iter_max = 0
            hist.append("deepcopy")
        else:
            p, X, init = prob(rng, cplx)
            est.fit(X, init=init)
            hist.append("fit")
    p, X, init = prob(rng, cplx)
    ro = RO(X, init)
    want = functional(kind, X, init, d)
    r = est.fit(X, init=init) if init is not None or rng.integers(2) else est.fit(X)
    check(est, r, X, want, "%s after %s" % (kind, hist))
    r = est.fit(X, None, init)
    check(est, r, X, want, "%s fitted again" % kind)
    ro.check()


@case("C11", 30)
def natural_gradient(rng):
    cplx = bool(rng.integers(2))
    cls = M.ComplexTylerShapeMatrix if cplx else M.TylerShapeMatrix
    f = M.complex_tyler_shape_matrix_naturalgradient if cplx else M.tyler_shape_matrix_naturalgradient
    p = int(rng.integers(1, 4))
    X = data(rng, 12, p, cplx, scale=1)
    init = pick(rng, [None, randpd(rng, p, cplx, cond=3, scale=1)])
    nm = pick(rng, ["None", "trace", "determinant", "element"])
    with Solver(rng):
        want = f(X, init=init, normalisation=nm)
        est = cls(method="natural gradient", normalisation=nm, verbosity=bool(rng.integers(2)))
        r = est.fit(X, init=init)
        check(est, r, X, want, "natural gradient")
        est.fit(data(rng, 9, p, cplx, scale=1), init=init)
        r = est.fit(X, init=init)
        check(est, r, X, want, "natural gradient, third fit")
        est = deepcopy(est)
        r = est.fit(X, init=init)
        check(est, r, X, want, "natural gradient, copy")
        est.method = "fixed-point"
        r = est.fit(X, init=init)
        g = M.complex_tyler_shape_matrix_fixedpoint if cplx else M.tyler_shape_matrix_fixedpoint
        check(est, r, X, g(X, init=init, tol=est.tol, iter_max=est.iter_max, normalisation=nm), "method changed")


@case("C11", 20)
def unknown_method(rng):
    for cls in (M.TylerShapeMatrix, M.ComplexTylerShapeMatrix):
        name = pick(rng, ["foo", "Fixed-point", "", "fixed point", "naturalgradient"])
        raises(NotImplementedError, lambda: cls(method=name), "method %r" % name)
        est = cls()
        est.method = name
        raises(NotImplementedError, lambda: est.set_method(), "method %r in set_method" % name)
        raises(NotImplementedError, lambda: est.fit(data(rng, 10, 2, "Complex" in cls.__name__)), "method %r in fit" % name)


@case("C11", 40)
def empirical_and_kronecker(rng):
    cplx = bool(rng.integers(2))
    n, p = int(rng.integers(6, 20)), int(rng.integers(1, 5))
    X = layout(rng, data(rng, n, p, cplx) + randn(rng, p, cplx=cplx))
    ac = bool(rng.integers(2))
    est = (ComplexEmpiricalCovariance if cplx else RealEmpiricalCovariance)(assume_centered=ac)
    for _ in range(int(rng.integers(0, 3))):
        est.fit(data(rng, n + 1, p, cplx))
    r = est.fit(X)
    ok(r is est, "fit returns the estimator")
    Y = X if ac else X - X.mean(0)
    S = Y.T @ Y.conj() / n
    close(est.covariance_, S, "empirical covariance_", rtol=1e-10)
    close(est.precision_, la.inv(S), "empirical precision_", rtol=1e-8 * la.cond(S))
    close(est.location_, 0 * X.mean(0) if ac else X.mean(0), "location_", rtol=1e-10, atol=1e-12)
    a, b = 2, int(rng.integers(1, 4))
    Z = data(rng, 12, a * b, True, scale=1)
    e = ST.KroneckerEllipticalMM(a, b, tol=1e-3, iter_max=int(pick(rng, [1, 3, 20])))
    if rng.integers(2):
        e.fit(data(rng, 9, a * b, True))
    r = e.fit(Z)
    A, B, _, _ = ST.estimation_cov_kronecker_MM(Z, a, b, tol=1e-3, iter_max=e.iter_max)
    ok(r is e, "fit returns the estimator")
    close(e.A_, A, "A_", rtol=1e-12)
    close(e.B_, B, "B_", rtol=1e-12)
    close(e.covariance_, np.kron(A, B), "covariance_", rtol=1e-12)
