from fp import *
from scipy.stats import chi2
from robuststats.estimation import covariance as M


def fns(cplx):
    return M.complex_huber_m_estimator_fixed_point if cplx else M.huber_m_estimator_fixed_point


def weight(cplx, p, q):
    if cplx:
        a = chi2.ppf(q, 2 * p) / 2
        b = chi2.cdf(2 * a, 2 * p + 2) + a * (1 - q) / p
    else:
        a = chi2.ppf(q, p)
        b = chi2.cdf(a, p + 2) + a * (1 - q) / p
    return lambda d: np.minimum(1, a / d) / b


@case("C10", 300)
def iterate(rng):
    cplx = bool(rng.integers(2))
    n, p, X, init, tol, it = problem(rng, cplx)
    q = float(pick(rng, [.01, .1, .3, .5, .7, .9, .95, .99, rng.uniform()]))
    ro = RO(X, init)
    kw = {"verbosity": True} if rng.integers(4) == 0 else {}
    got = fns(cplx)(X, q, init=init, tol=tol, iter_max=it, **kw)
    cmp(got, reference(X, weight(cplx, p, q), init, tol, it), "Huber", cplx, p)
    ro.check()


@case("C10", 40)
def defaults(rng):
    cplx = bool(rng.integers(2))
    n, p, X, init, tol, it = problem(rng, cplx)
    cmp(fns(cplx)(X, .8), reference(X, weight(cplx, p, .8), None, 1e-4, 30), "Huber with default options", cplx, p)


@case("C10", 60)
def weight_function(rng):
    f = M._huber_m_estimator_function
    x = np.exp(rng.uniform(-4, 4, int(rng.integers(1, 30))))
    a, b = float(np.exp(rng.uniform(-2, 2))), float(np.exp(rng.uniform(-2, 2)))
    x[0] = a
    ro = RO(x)
    u = f(x, a, b)
    close(u, np.minimum(1, a / x) / b, "u(d) = min(1, a/d)/b", rtol=1e-13)
    ok(np.all(u <= (1 / b) * (1 + 1e-12)), "no weight above the maximal one")
    ok(np.ptp(u[x <= a]) == 0, "same weight within the threshold")
    for aa, bb in ((0, b), (-a, b), (a, -b), (0., 1.), (-1e-9, 1.), (a, -1e-9)):
        raises(AssertionError, lambda: f(x, aa, bb), "threshold %g, b %g" % (aa, bb))
    ro.check()
