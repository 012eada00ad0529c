"""no library call modifies an array it is given: arguments are compared (bytes, shape, dtype) after every call,
once writable (a silent modification shows) -- on normal, non-convergent and error paths"""
from h import *
from robuststats.estimation import base as B, covariance as M, structured as ST
from robuststats.models import cost as CO, manifolds as MA, mappings as MP, probability as P
from robuststats.utils import linalg as L, generation_data as G, checking as CK
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as SGD


def arrays_in(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays_in(y)]
    return []


def frame(name, f, *args, **kw):
    arrs = [a for x in list(args) + list(kw.values()) for a in arrays_in(x)]
    ro = RO(*arrs)
    try:
        r = f(*args, **kw)
    except (Skip, Broken):
        raise
    except Exception:
        r = None
    ro.check("%s modified an argument" % name)
    return r


@case("C12", 120)
def fixed_points(rng):
    cplx = bool(rng.integers(2))
    p = int(rng.integers(1, 5))
    X = layout(rng, data(rng, int(rng.integers(p + 2, 20)), p, cplx))
    init = pick(rng, [None, layout(rng, randpd(rng, p, cplx)), np.eye(p), layout(rng, randn(rng, p + 1, p + 1)), np.zeros((p, p))])
    if rng.integers(5) == 0:
        X[0] = 0
    kw = dict(tol=float(pick(rng, [1e-4, 0, 1.])), iter_max=int(pick(rng, [0, 1, 2, 30])), verbosity=bool(rng.integers(2)))
    nm = pick(rng, ["None", "trace", "determinant", "element", None, "foo"])
    fs = [(M.complex_tyler_shape_matrix_fixedpoint if cplx else M.tyler_shape_matrix_fixedpoint, (), dict(normalisation=nm)),
          (M.complex_student_t_mle_fixed_point if cplx else M.student_t_mle_fixed_point, (float(pick(rng, [3, 1, -1])),), {}),
          (M.complex_huber_m_estimator_fixed_point if cplx else M.huber_m_estimator_fixed_point, (.8,), {})]
    for f, a, k in fs:
        frame(f.__name__, f, X, *a, init=init, **kw, **k)
    ests = [(M.ComplexTylerShapeMatrix if cplx else M.TylerShapeMatrix)(normalisation=nm if nm in ("None", "trace", "determinant", "element") else "None", tol=kw["tol"], iter_max=kw["iter_max"]),
            (M.ComplexCenteredStudentMLE if cplx else M.CenteredStudentMLE)(3, tol=kw["tol"], iter_max=kw["iter_max"]),
            (M.ComplexHuberMEstimator if cplx else M.HuberMEstimator)(.7, tol=kw["tol"], iter_max=kw["iter_max"])]
    for e in ests:
        nm_ = type(e).__name__
        frame(nm_ + ".fit", e.fit, X, init=init)
        # the estimate does not alias the start: using the estimator afterwards must not change it either
        frame(nm_ + ".score", e.score, X)
        frame(nm_ + ".fit_transform", e.fit_transform, X)
        ro = RO(X, init if init is not None else X)
        frame(nm_ + ".fit", e.fit, X, init=init)
        e.fit_transform(X * 2 + 1) if len(X) > p + 1 and not np.any(np.abs(X * 2 + 1).sum(1) == 0) else None
        ro.check(nm_ + ": a later fit modified earlier arguments")
    with Solver(rng):
        f = M.complex_tyler_shape_matrix_naturalgradient if cplx else M.tyler_shape_matrix_naturalgradient
        frame(f.__name__, f, X, init=init, normalisation=nm)
        e = (M.ComplexTylerShapeMatrix if cplx else M.TylerShapeMatrix)(method="natural gradient", normalisation="trace")
        frame("natural gradient fit", e.fit, X, init=init)


@case("C12", 60)
def empirical(rng):
    cplx = bool(rng.integers(2))
    p = int(rng.integers(1, 5))
    X = layout(rng, data(rng, int(rng.integers(1, 12)), p, cplx) + 1)
    for ac in (True, False):
        frame("complex_empirical_covariance", B.complex_empirical_covariance, X, assume_centered=ac)
        e = (B.ComplexEmpiricalCovariance if cplx else B.RealEmpiricalCovariance)(assume_centered=ac)
        frame("empirical fit", e.fit, X)
        frame("empirical transform", e.transform, X)
        C = layout(rng, randpd(rng, p, cplx))
        for nrm in ("frobenius", "spectral"):
            for sc in (True, False):
                frame("error_norm", e.error_norm, C, nrm, sc, bool(rng.integers(2)))
        if not cplx:
            frame("score", e.score, X)
            frame("mahalanobis", e.mahalanobis, X)
    s = B.RealCovarianceScale()
    frame("_set_covariance", s._set_covariance, layout(rng, randpd(rng, p, False)))
    frame("_set_scale", s._set_scale, layout(rng, randn(rng, 5, 1)))


@case("C12", 80)
def mappings_linalg_cost(rng):
    n, p, k = int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    for cplx in (True, False):
        for a in (randn(rng, p, cplx=cplx), randn(rng, n, 2 * p, cplx=cplx), randn(rng, k, p, p, cplx=cplx)):
            a = layout(rng, a)
            for f in (MP.arraytoreal, MP.arraytocomplex, MP.covariancestoreal, MP.covariancestocomplex):
                frame(f.__name__, f, a)
        for a in (randn(rng, p, p, cplx=cplx), randn(rng, 2 * p, 2 * p, cplx=cplx), randpd(rng, p, cplx)):
            a = layout(rng, a)
            for f in (MP.covariancetoreal, MP.covariancetocomplex, MP.iscovariance, MP.check_Hermitian, MP.check_Symmetric, L.hermitian, L.multiherm, L.vec, L.vech):
                frame(f.__name__, f, a)
        C = layout(rng, randpd(rng, p, cplx))
        for f in (L.sqrtm, L.invsqrtm, L.logm, L.expm):
            for ag in (False, True):
                frame(f.__name__, f, C, ag)
        frame("powm", L.powm, C, .4)
        for nm in ("trace", "determinant", "element", "None", "foo"):
            frame("normalisation", M.get_normalisation_function(nm), C)
        v = layout(rng, randn(rng, p * (p + 1) // 2, cplx=cplx))
        frame("unvech", L.unvech, v)
        frame("unvec", L.unvec, layout(rng, randn(rng, p * p, cplx=cplx)))
        X = layout(rng, data(rng, n, p, cplx))
        cf = CO.Tyler_cost_complex if cplx else CO.Tyler_cost_real
        for ag in (False, True):
            frame("Tyler cost", cf, X, C, ag)
            frame("Tyler cost", cf, X, np.eye(p + 1), ag)
        frame("huber weights", M._huber_m_estimator_function, layout(rng, np.abs(randn(rng, 7)) + .1), 1., 1.)


@case("C12", 80)
def densities(rng):
    p, n = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    m, C, x = randn(rng, p, cplx=bool(rng.integers(2))), randpd(rng, p, bool(rng.integers(2))), randn(rng, n, p, cplx=bool(rng.integers(2)))
    m, C, x = layout(rng, m), layout(rng, C), layout(rng, x)
    if rng.integers(4) == 0:
        m = None
    if rng.integers(6) == 0:
        C = -C            # rejected by scipy: error path
    N, T = P.complex_multivariate_normal, P.complex_multivariate_t
    frame("normal.logpdf", N.logpdf, x, m, C)
    frame("normal.pdf", N.pdf, x, m, C)
    frame("normal.rvs", N.rvs, m, C, 3, 1)
    frame("normal.entropy", N.entropy, m, C)
    frame("t.logpdf", T.logpdf, x, m, C, 3)
    frame("t.pdf", T.pdf, x, m, C, 3)
    frame("t.rvs", T.rvs, m, C, 3, 2, 1)
    ro = RO(*[a for a in (m, C, x) if a is not None])
    try:
        f, g = N(m, C), T(m, C, 3)
        for o in (f, g):
            o.logpdf(x), o.pdf(x), o.rvs(2)
        f.entropy()
    except Exception:
        pass
    ro.check("a frozen model modified its parameters or data")


@case("C12", 120)
def manifold_operations(rng):
    n, k = int(rng.integers(1, 5)), int(pick(rng, [1, 1, 2, 3]))
    hp = rng.integers(4)
    if hp == 0:
        man = MA.StrictlyPositiveVectors(n, k)
        pt = lambda: layout(rng, np.exp(randn(rng, n, k)))
        tg = lambda: layout(rng, randn(rng, n, k))
    elif hp in (1, 2):
        man = (MA.HermitianPositiveDefinite if hp == 1 else MA.SpecialHermitianPositiveDefinite)(n, k)

        def pt():
            x = randpd(rng, n, True, cond=10, k=None if k == 1 else k)
            if hp == 2:
                x = x / np.real(la.det(x))[..., None, None] ** (1 / n)
            return layout(rng, x)
        tg = lambda: layout(rng, randherm(rng, n, True, None if k == 1 else k))
    else:
        b = int(rng.integers(1, 4))
        man = pick(rng, [MA.KroneckerHermitianPositiveElliptical(n, b, .9),
                         MA.WeightedProduct([MA.HermitianPositiveDefinite(n), MA.HermitianPositiveDefinite(b)], (2., .3))])

        def pt():
            x = randpd(rng, n, True, cond=10)
            x = x / np.real(la.det(x)) ** (1 / n)
            return [layout(rng, x), layout(rng, randpd(rng, b, True, cond=10))]
        tg = lambda: [layout(rng, randherm(rng, n, True)), layout(rng, randherm(rng, b, True))]
    x, y, u, v, w = pt(), pt(), tg(), tg(), tg()
    nm = type(man).__name__
    frame(nm + ".inner", man.inner, x, u, v)
    frame(nm + ".norm", man.norm, x, u)
    frame(nm + ".proj", man.proj, x, u)
    frame(nm + ".egrad2rgrad", man.egrad2rgrad, x, u)
    frame(nm + ".ehess2rhess", man.ehess2rhess, x, u, v, w)
    frame(nm + ".exp", man.exp, x, u)
    frame(nm + ".log", man.log, x, y)
    frame(nm + ".retr", man.retr, x, u)
    frame(nm + ".transp", man.transp, x, y, u)
    frame(nm + ".dist", man.dist, x, y)
    frame(nm + ".randvec", man.randvec, x)
    frame(nm + ".zerovec", man.zerovec, x)
    # results must not share memory with arguments in a way that a caller's in-place use of the result changes them,
    # for operations that compute a new matrix
    ro = RO(*arrays_in([x, y, u, v, w]))


@case("C12", 60)
def structured(rng):
    a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    cplx = bool(rng.integers(2))
    X = layout(rng, data(rng, int(rng.integers(2, 12)), a * b, cplx))
    frame("estimation_cov_kronecker_MM", ST.estimation_cov_kronecker_MM, X, a, b, tol=1e-3, iter_max=int(rng.integers(0, 4)))
    frame("estimation_cov_kronecker_MM", ST.estimation_cov_kronecker_MM, X, a + 1, b)
    frame("KroneckerEllipticalMM.fit", ST.KroneckerEllipticalMM(a, b, iter_max=2).fit, X)
    A, Bm = randpd(rng, a, True, cond=5), randpd(rng, b, True, cond=5)
    Z = layout(rng, X + 0j)
    loc = pick(rng, [None, randn(rng, a * b, cplx=True)])
    c = frame("cost generator", ST._generate_cost_function_kronecker_student, Z, 3, loc)
    g = frame("egrad generator", ST._generate_egrad_function_kronecker_student, Z, a, b, 3, loc)
    ro = RO(*[z for z in (Z, loc) if z is not None])
    frame("cost", c, A, Bm)
    frame("egrad", g, A, Bm)
    ro.check("cost or gradient modified the data")
    with Solver(rng):
        e = ST.KroneckerStudent(a, b, 3, assume_centered=bool(rng.integers(2)))
        init = (A, Bm)
        frame("KroneckerStudent.fit", e.fit, Z, init=init)
        frame("KroneckerStudent.score", e.score, Z)


@case("C12", 60)
def transformers_online(rng):
    p, t, n = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(4, 9))
    cplx = bool(rng.integers(2))
    X = layout(rng, randn(rng, t, n, p, cplx=cplx))
    est = (B.ComplexEmpiricalCovariance if cplx else B.RealEmpiricalCovariance)()
    frame("CovariancesEstimation.transform", B.CovariancesEstimation(est).transform, X)
    frame("FeaturesEstimation.transform", B.FeaturesEstimation(est).transform, X)
    fa = B._FeatureArray((p, p))
    d = [layout(rng, randn(rng, p, p)), layout(rng, randn(rng, 3, p, p)), layout(rng, randn(rng, p, p))]
    ro = RO(*d)
    for a in d:
        frame("append", fa.append, a)
    fa.vectorize(), fa.export(), fa[0], fa[1:3]
    ro.check("feature array modified appended data")
    man = MA.HermitianPositiveDefinite(p)
    S0 = layout(rng, randpd(rng, p, True, cond=4))
    Y = layout(rng, randn(rng, 4, p, cplx=True))
    e = SGD(man, lambda x, S: -herm((x.T @ x.conj()) - S) / 10, .3)
    frame("online fit", e.fit, Y, init=S0)
    frame("online update", e.update, Y[:1], "constant")


@case("C12", 30)
def generators(rng):
    p, N = int(rng.integers(1, 4)), int(rng.integers(1, 8))
    tau = layout(rng, np.abs(randn(rng, N)) + .1)
    C, K = layout(rng, randpd(rng, p, False)), layout(rng, randpd(rng, p, True))
    U, V = layout(rng, randn(rng, p, 1)), layout(rng, randn(rng, p, 1, cplx=True))
    frame("sample_normal", G.sample_normal_distribution, N, C)
    frame("sample_complex_normal", G.sample_complex_normal_distribution, N, K)
    frame("compound", G.sample_compound_distribution, tau, C)
    frame("complex compound", G.sample_complex_compound_distribution, tau, K)
    frame("tau UUH", G.sample_tau_UUH_distribution, tau, U)
    frame("complex tau UUH", G.sample_complex_tau_UUH_distribution, tau, V)
