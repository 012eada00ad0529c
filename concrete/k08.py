from fp import *
from robuststats.estimation import covariance as M


def fns(cplx):
    return M.complex_tyler_shape_matrix_fixedpoint if cplx else M.tyler_shape_matrix_fixedpoint


@case("C08", 300)
def iterate(rng):
    cplx = bool(rng.integers(2))
    n, p, X, init, tol, it = problem(rng, cplx)
    how = pick(rng, NORMS)
    ro = RO(X, init)
    f = fns(cplx)
    kw = {}
    if rng.integers(4) == 0:
        kw["verbosity"] = True
    if how == "None" and rng.integers(2):
        got = f(X, init=init, tol=tol, iter_max=it, **kw)
    else:
        got = f(X, init=init, tol=tol, iter_max=it, normalisation=how, **kw)
    want = reference(X, lambda d: p / d, init, tol, it)
    S = want[0] / norm_of(want[0], how)
    cmp(got, (S,) + want[1:], "Tyler", cplx, p)
    ro.check()


@case("C08", 40)
def defaults(rng):
    cplx = bool(rng.integers(2))
    n, p, X, init, tol, it = problem(rng, cplx)
    got = fns(cplx)(X)
    cmp(got, reference(X, lambda d: p / d, None, 1e-4, 30), "Tyler with default options", cplx, p)


@case("C08", 80)
def invariance(rng):
    cplx = bool(rng.integers(2))
    n, p, X, init, tol, it = problem(rng, cplx)
    X = X.astype(complex if cplx else float)
    if init is None:
        init = randpd(rng, p, cplx, cond=5, scale=1)
    f = fns(cplx)
    it = min(it, 10)
    S, e, k = f(X, init=init, tol=0, iter_max=it)
    t = np.exp(rng.uniform(-3, 3, (n, 1))) * pick(rng, [1, -1])
    if cplx:
        t = t * np.exp(1j * rng.uniform(0, 6, (n, 1)))
    Z, e2, k2 = f(X * t, init=init, tol=0, iter_max=it)
    close(Z, S, "depends on the directions of the samples only", rtol=1e-7)
    A = randpd(rng, p, cplx, cond=4, scale=1) @ randunit(rng, p, cplx)
    Z, e2, k2 = f(X @ A.T, init=herm(A @ init @ A.conj().T), tol=0, iter_max=it)
    close(Z, A @ S @ A.conj().T, "commutes with invertible maps", rtol=1e-6)
