"""Frame contracts: the contents of every array argument are the same objects' contents before and after each call.
Arguments are frozen: any write that reaches one is a failed obligation at the write itself; in addition the
contents are compared after the call, on normal returns and on exceptions."""
from rsv.spec import *
from .fixedpoint import FixedPoint


def arrays_in(x):
    if isinstance(x, Arr):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays_in(y)]
    return []


class Frame:
    """the caller's arrays during a call"""

    def __init__(self, name, *xs):
        self.name = name
        self.arrs = arrays_in(list(xs))
        self.lists = [(x, list(x)) for x in xs if isinstance(x, list)]
        self.snap = [(a, a.cell.body, a.cell.kind, tuple(a.vshape)) for a in self.arrs]

    def check(self):
        for a, b, k, sh in self.snap:
            ok = a.cell.kind == k and len(a.vshape) == len(sh) and all(same(x, y) for x, y in zip(a.vshape, sh)) and (a.cell.body is b or a.cell.body.key == b.key)
            RT.oblige("frame: %s leaves argument %s as it was" % (self.name, a.cell.frozen), ok, "contents changed", "frame")
        for x, y in self.lists:
            RT.oblige("frame: %s leaves its argument list as it was" % self.name, len(x) == len(y) and all(a is b for a, b in zip(x, y)), "list changed", "frame")


def frame(name, f, *args, **kw):
    fr = Frame(name, *args, *kw.values())
    try:
        r = f(*args, **kw)
    except Exception as e:      # error paths count as well (StopPath etc. are not Exceptions of the code)
        if isinstance(e, (RecursionError, MemoryError, NotImplementedError)) and not isinstance(e, NotImplementedError):
            raise
        r = None
        RT.events.append(("raised", name, "%s: %s" % (type(e).__name__, e)))
    fr.check()
    return r


def returned(name, r):
    RT.oblige("%s returns (the frame contract is not vacuous)" % name, r is not None, "%s" % ([e for e in RT.events if e[0] == "raised"][-1:],))
    return r


def register(L):
    C = check("C12")
    M = L.module("robuststats.estimation.covariance")
    B = L.module("robuststats.estimation.base")
    ST = L.module("robuststats.estimation.structured")
    CO = L.module("robuststats.models.cost")
    MA = L.module("robuststats.models.manifolds")
    MP = L.module("robuststats.models.mappings")
    PR = L.module("robuststats.models.probability")
    LA = L.module("robuststats.utils.linalg")
    ON = L.module("robuststats.online.estimation")
    G = L.module("robuststats.utils.generation_data")
    CK = L.module("robuststats.utils.checking")

    # ------------------------------------------------------------ mappings
    for kind in ("float", "complex"):
        for nm, mk in (("vector", lambda n, p: [p]), ("matrix", lambda n, p: [n, p]), ("even matrix", lambda n, p: [n, 2 * p]), ("square", lambda n, p: [p, p]),
                       ("even square", lambda n, p: [2 * p, 2 * p]), ("even rectangle", lambda n, p: [2 * n, 2 * p]), ("batch", lambda n, p: [n, p, p]),
                       ("even batch", lambda n, p: [n, 2 * p, 2 * p]), ("four axes", lambda n, p: [n, n, p, p])):
            @C.scenario("mappings, %s %s" % (kind, nm))
            def _(kind=kind, mk=mk):
                for f in ("arraytoreal", "arraytocomplex", "covariancetoreal", "covariancetocomplex", "covariancestoreal", "covariancestocomplex", "check_Hermitian", "check_Symmetric", "iscovariance"):
                    a = sym("a", mk(dim("n"), dim("p")), kind)
                    frame(f, getattr(MP, f), a)

    # ------------------------------------------------------------ matrix functions, normalisations
    for real in (True, False):
        kd = "real" if real else "complex"
        for batch in (False,):
            @C.scenario("matrix functions, %s" % kd)
            def _(real=real, batch=batch):
                n, k = dim("n"), dim("k")
                for f in ("sqrtm", "invsqrtm", "logm", "expm"):
                    for ag in (False, True):
                        C_ = hpd("C", n, real, batch=k if batch else None)
                        returned(f, frame(f, getattr(LA, f), C_, ag))
                C_ = hpd("C", n, real, batch=k if batch else None)
                returned("powm", frame("powm", LA.powm, C_, F(2, 5)))
                a = sym("a", ([k] if batch else []) + [n, n], "float" if real else "complex")
                returned("hermitian", frame("hermitian", LA.hermitian, a))

        @C.scenario("vectorisation, %s" % kd)
        def _(real=real):
            n = dim("n")
            kind = "float" if real else "complex"
            a = sym("a", [n, n], kind)
            returned("vec", frame("vec", LA.vec, a))
            returned("vech", frame("vech", LA.vech, a))
            v = sym("v", [n * n], kind)
            frame("unvec", LA.unvec, v)
            q = P_(n) * (P_(n) + 1).scale(F(1, 2))
            returned("unvech", frame("unvech", LA.unvech, sym("w", [sint(q)], kind)))

        for nm in ("trace", "determinant", "element", "None", "foo"):
            @C.scenario("normalisation %s, %s" % (nm, kd))
            def _(nm=nm, real=real):
                n = dim("n")
                a = hpd("a", n, real)
                frame("normalisation", M.get_normalisation_function(nm), a)

        for ag in (False, True):
            for bad in (False, True):
                @C.scenario("Tyler cost, %s%s%s" % (kd, ", autograd" if ag else "", ", wrong size" if bad else ""))
                def _(real=real, ag=ag, bad=bad):
                    n, p = dim("n"), dim("p")
                    X = sym("X", [n, p], "float" if real else "complex")
                    Q = hpd("Q", p + 1 if bad else p, real)
                    frame("Tyler cost", CO.Tyler_cost_real if real else CO.Tyler_cost_complex, X, Q, ag)

    @C.scenario("Huber weights")
    def _():
        d = sym("d", [dim("n")], pos=True)
        a, b = scal("a", pos=True), scal("b", pos=True)
        returned("weights", frame("weights", M._huber_m_estimator_function, d, a, b))

    # ------------------------------------------------------------ fixed-point estimation functions and estimators
    def weights(which, real, p):
        if which == "tyler":
            return lambda d: N.mul(fromP(P_(p)), npow(d, -1)), (), {}
        if which == "student":
            df = scal("df", pos=True)
            return (lambda d: N.mul(nfof(df) + (fromP(P_(p)) if real else fromP(P_(p)) + fromP(P_(p))), npow(nfof(df) + (d if real else d + d), -1))), (df,), {}
        from .c10 import fmin
        chi = lambda nm, x, k: N.mk_fn("chi2." + nm, [x, k])
        q = scal("q", pos=True)
        RT.assume(q < 1)
        P = fromP(P_(p))
        Q = nfof(q)
        if real:
            a = chi("ppf", Q, P)
            F_ = chi("cdf", a, P + const(2))
        else:
            a = N.mul(half, chi("ppf", Q, P + P))
            F_ = chi("cdf", a + a, P + P + const(2))
        b = F_ + N.mul(N.mul(a, const(1) - Q), npow(P, -1))
        return (lambda d: N.mul(fmin(const(1), N.mul(a, npow(d, -1))), npow(b, -1))), (q,), {}
    FN = {("tyler", True): "tyler_shape_matrix_fixedpoint", ("tyler", False): "complex_tyler_shape_matrix_fixedpoint",
          ("student", True): "student_t_mle_fixed_point", ("student", False): "complex_student_t_mle_fixed_point",
          ("huber", True): "huber_m_estimator_fixed_point", ("huber", False): "complex_huber_m_estimator_fixed_point"}
    CL = {("tyler", True): "TylerShapeMatrix", ("tyler", False): "ComplexTylerShapeMatrix", ("student", True): "CenteredStudentMLE",
          ("student", False): "ComplexCenteredStudentMLE", ("huber", True): "HuberMEstimator", ("huber", False): "ComplexHuberMEstimator"}
    for (which, real), fn in FN.items():
        kd = "real" if real else "complex"
        for init in ("default", "given"):
            for verb in (False, True):
                @C.scenario("%s, %s start%s" % (fn, init, ", verbose" if verb else ""))
                def _(which=which, real=real, fn=fn, init=init, verb=verb):
                    n, p = dim("n", 2 if init == "default" else 1), dim("p")
                    w, a, k = weights(which, real, p)
                    fp = FixedPoint(real, w, init, n=n, p=p)
                    if which == "tyler":
                        k = dict(normalisation="trace")
                    returned(fn, frame(fn, getattr(M, fn), fp.X, *a, init=fp.init, tol=scal("tol"), iter_max=pint("iter_max"), verbosity=verb, **k))

            @C.scenario("%s, %s start: any limit, zero tolerance, no iteration" % (fn, init))
            def _(which=which, real=real, fn=fn, init=init):
                n, p = dim("n", 2 if init == "default" else 1), dim("p")
                w, a, k = weights(which, real, p)
                fp = FixedPoint(real, w, init, n=n, p=p)
                returned(fn, frame(fn, getattr(M, fn), fp.X, *a, init=fp.init, iter_max=0))
                frame(fn, getattr(M, fn), fp.X, *a, init=hpd("badinit", p + 1, real), iter_max=1)

        @C.scenario("%s: two fits, score, transform" % CL[which, real])
        def _(which=which, real=real, fn=fn):
            n, p = dim("n", 2), dim("p")
            w, a, k = weights(which, real, p)
            fp = FixedPoint(real, w, "given", n=n, p=p)
            e = getattr(M, CL[which, real])(*a, tol=scal("tol"), iter_max=pint("iter_max"))
            all_ = Frame("estimator", fp.X, fp.init)
            returned("fit", frame("fit", e.fit, fp.X, init=fp.init))
            e.iter_max = 1
            fp2 = FixedPoint(real, w, "given", X=sym("X2", [dim("n2", 2), p], "float" if real else "complex"), n=dim("n2", 2), p=p)
            returned("second fit", frame("second fit", e.fit, fp2.X, init=fp2.init))
            all_.check()

    # ------------------------------------------------------------ natural gradient (solver: assumed not to write to the start)
    def solver(sols):
        def on(sv, problem, x):
            for s in sols():
                pts = s if isinstance(s, tuple) else (s,)
                frame("cost", problem.cost, *pts)
                frame("gradient", problem.egrad, *pts)
            return sols()[-1]
        return on
    for real in (True, False):
        for init in (False, True):
            for how in ("function", "estimator"):
                @C.scenario("natural gradient, %s %s%s" % ("real" if real else "complex", how, ", given start" if init else ""))
                def _(real=real, init=init, how=how):
                    n, p = dim("n"), dim("p")
                    m = p if real else 2 * p
                    RT.on_solve = solver(lambda: [hpd("P", m, True)])
                    RT.autograd_hook = lambda f, argnum, *a, **k: [sym("G", a[0].shape, "float")] if isinstance(argnum, list) else sym("G", a[0].shape, "float")
                    X = sym("X", [n, p], "float" if real else "complex")
                    I0 = hpd("I", p, real) if init else None
                    if how == "function":
                        f = M.tyler_shape_matrix_naturalgradient if real else M.complex_tyler_shape_matrix_naturalgradient
                        returned("natural gradient", frame("natural gradient", f, X, init=I0, normalisation="trace"))
                    else:
                        e = (M.TylerShapeMatrix if real else M.ComplexTylerShapeMatrix)(method="natural gradient")
                        returned("fit", frame("fit", e.fit, X, init=I0))

    # ------------------------------------------------------------ empirical estimators
    for real in (True, False):
        for centred in (True, False):
            @C.scenario("empirical covariance, %s, assume_centered=%s" % ("real" if real else "complex", centred))
            def _(real=real, centred=centred):
                n, p = dim("n", 2), dim("p")
                X = sym("X", [n, p], "float" if real else "complex")
                returned("complex_empirical_covariance", frame("complex_empirical_covariance", B.complex_empirical_covariance, X, assume_centered=centred))
                e = (B.RealEmpiricalCovariance if real else B.ComplexEmpiricalCovariance)(assume_centered=centred)
                returned("fit", frame("fit", e.fit, X))
                returned("transform", frame("transform", e.transform, X))
                for nrm in ("frobenius", "spectral") if centred else ():
                    for sc_ in (True, False):
                        for sq in (True, False):
                            cov = hpd("C", p, real)
                            returned("error_norm", frame("error_norm", e.error_norm, cov, nrm, sc_, sq))
                frame("error_norm", e.error_norm, hpd("C", p, real), "foo")

    # ------------------------------------------------------------ manifold operations
    def operations(man, pt, tg):
        x, y, u, v, w = pt("x"), pt("y"), tg("u"), tg("v"), tg("w")
        for nm, a in (("inner", (x, u, v)), ("norm", (x, u)), ("proj", (x, u)), ("egrad2rgrad", (x, u)), ("ehess2rhess", (x, u, v, w)), ("exp", (x, u)), ("log", (x, y)),
                      ("retr", (x, u)), ("transp", (x, y, u)), ("dist", (x, y)), ("randvec", (x,)), ("zerovec", (x,))):
            for _ in range(2):       # a second call sees whatever the first one left
                frame("%s.%s" % (type(man).__name__, nm), getattr(man, nm), *a)

    for cls in ("HermitianPositiveDefinite", "SpecialHermitianPositiveDefinite"):
        for batch in (False, True):
            @C.scenario("%s operations%s" % (cls, ", batch" if batch else ""))
            def _(cls=cls, batch=batch):
                n, k = dim("n"), dim("k", 2)
                man = getattr(MA, cls)(n, k) if batch else getattr(MA, cls)(n)
                operations(man, lambda s: hpd(s, n, batch=k if batch else None), lambda s: herm(s, n, batch=k if batch else None))

    for k in (1, None):
        @C.scenario("StrictlyPositiveVectors operations%s" % ("" if k else ", batch"))
        def _(k=k):
            n = dim("n")
            kk = dim("k", 2) if k is None else 1
            man = MA.StrictlyPositiveVectors(n, kk) if k is None else MA.StrictlyPositiveVectors(n)
            operations(man, lambda s: sym(s, [n, kk], pos=True), lambda s: sym(s, [n, kk]))

    for cls in ("KroneckerHermitianPositiveElliptical", "WeightedProduct"):
        @C.scenario("%s operations" % cls)
        def _(cls=cls):
            n, b = dim("n"), dim("b")
            man = MA.KroneckerHermitianPositiveElliptical(n, b, scal("alpha", pos=True)) if cls[0] == "K" else MA.WeightedProduct([MA.HermitianPositiveDefinite(n), MA.HermitianPositiveDefinite(b)], (scal("w1", pos=True), scal("w2", pos=True)))
            operations(man, lambda s: [hpd(s + "0", n), hpd(s + "1", b)], lambda s: [herm(s + "0", n), herm(s + "1", b)])

    # ------------------------------------------------------------ densities
    for model in ("normal", "t"):
        for pk in ("real", "complex"):
            for xk in ("real", "complex"):
                @C.scenario("%s density: %s parameters, %s data" % (model, pk, xk))
                def _(model=model, pk=pk, xk=xk):
                    n, p = dim("n"), dim("p", 2)
                    kd = {"real": "float", "complex": "complex"}
                    mk_ = lambda: (sym("x", [n, p], kd[xk]), sym("m", [p], kd[pk]), hpd("C", p, pk == "real"))
                    D = PR.complex_multivariate_normal if model == "normal" else PR.complex_multivariate_t
                    ex = () if model == "normal" else (scal("df", pos=True),)
                    for f in ("logpdf", "pdf"):
                        returned(f, frame(f, getattr(D, f), *mk_(), *ex))
                    x, m, c = mk_()
                    returned("rvs", frame("rvs", D.rvs, m, c, *ex, size=3))
                    if model == "normal":
                        returned("entropy", frame("entropy", D.entropy, m, c))
                    fr = returned("frozen", frame("frozen", D, m, c, *ex))
                    al = Frame("frozen model", x, m, c)
                    returned("frozen logpdf", frame("frozen logpdf", fr.logpdf, x))
                    returned("frozen rvs", frame("frozen rvs", fr.rvs, 2))
                    al.check()

    # ------------------------------------------------------------ structured
    for loc in (False, True):
        @C.scenario("Kronecker Student cost and gradient%s" % (", location" if loc else ""))
        def _(loc=loc):
            a, b, n = dim("a"), dim("b"), dim("n")
            X = sym("X", [n, a * b], "complex")
            m = sym("loc", [a * b], "complex") if loc else None
            df = scal("df", pos=True)
            A, Bm = hpd("A", a), hpd("B", b)
            al = Frame("cost and gradient", X, m)
            g = returned("gradient", frame("egrad generator", ST._generate_egrad_function_kronecker_student, X, a, b, df, m))
            returned("gradient", frame("gradient", g, A, Bm))
            c = returned("cost", frame("cost generator", ST._generate_cost_function_kronecker_student, X, df, m))
            al.check()

    @C.scenario("Kronecker MM with an incompatible size")
    def _():
        a, b, n = dim("a"), dim("b"), dim("n")
        frame("estimation_cov_kronecker_MM", ST.estimation_cov_kronecker_MM, sym("X", [n, a * b + 1], "complex"), a, b)

    # ------------------------------------------------------------ generators
    for real in (True, False):
        @C.scenario("sample generators, %s" % ("real" if real else "complex"))
        def _(real=real):
            n, p, k = dim("n"), dim("p"), dim("k")
            kd = "float" if real else "complex"
            tau, cov, U = sym("tau", [n], pos=True), hpd("C", p, real), sym("U", [p, k], kd)
            c = "" if real else "complex_"
            returned("normal", frame("normal", getattr(G, "sample_%snormal_distribution" % c), n, cov))
            returned("compound", frame("compound", getattr(G, "sample_%scompound_distribution" % c), tau, cov))
            returned("tau UUH", frame("tau UUH", getattr(G, "sample_%stau_UUH_distribution" % c), tau, U))
