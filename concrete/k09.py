from fp import *
from robuststats.estimation import covariance as M


def fns(cplx):
    return M.complex_student_t_mle_fixed_point if cplx else M.student_t_mle_fixed_point


def weight(cplx, p, df):
    return (lambda d: (df / 2 + p) / (df / 2 + d)) if cplx else (lambda d: (df + p) / (df + d))


@case("C09", 300)
def iterate(rng):
    cplx = bool(rng.integers(2))
    n, p, X, init, tol, it = problem(rng, cplx)
    df = float(pick(rng, [.1, .5, 1, 2, 3, 4.5, 10, 100, 1e4]))
    if rng.integers(3) == 0:
        df = int(np.ceil(df))
    ro = RO(X, init)
    kw = {"verbosity": True} if rng.integers(4) == 0 else {}
    got = fns(cplx)(X, df, init=init, tol=tol, iter_max=it, **kw)
    cmp(got, reference(X, weight(cplx, p, df), init, tol, it), "Student-t", cplx, p)
    ro.check()


@case("C09", 40)
def defaults(rng):
    cplx = bool(rng.integers(2))
    n, p, X, init, tol, it = problem(rng, cplx)
    df = float(pick(rng, [1, 3, 20]))
    cmp(fns(cplx)(X, df), reference(X, weight(cplx, p, df), None, 1e-4, 30), "Student-t with default options", cplx, p)


@case("C09", 20)
def rejected_df(rng):
    X = randn(rng, 10, 2)
    for df in (0, -1, -1e-3, 0.):
        raises(AttributeError, lambda: M.student_t_mle_fixed_point(X, df), "df = %r" % df)
        raises(AttributeError, lambda: M.complex_student_t_mle_fixed_point(X + 0j, df), "df = %r" % df)


@case("C09", 30)
def stationary_point(rng):
    """a fixed point is stationary for the log-likelihood score reports"""
    cplx = bool(rng.integers(2))
    p = int(rng.integers(1, 4))
    X = data(rng, 40, p, cplx, scale=1)
    df = float(pick(rng, [1, 3, 8]))
    E = (M.ComplexCenteredStudentMLE if cplx else M.CenteredStudentMLE)(df, tol=1e-13, iter_max=3000)
    E.fit(X)
    if E.iteration_ >= 3000:
        raise Skip()
    S = E.covariance_
    h = 1e-4
    for _ in range(3):
        D = randherm(rng, p, cplx)
        D = D / la.norm(D)
        R = spec(herm(S), np.sqrt)
        f = []
        for s in (h, -h):
            E.covariance_ = herm(S + s * R @ D @ R)
            f.append(E.score(X))
        E.covariance_ = S
        close((f[0] - f[1]) / (2 * h) / len(X), 0, "derivative of the score at the fixed point", rtol=0, atol=1e-5)
