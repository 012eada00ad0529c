import copy
import inspect
from rsv.spec import *


def register(L):
    C = check("C11")
    M = L.module("robuststats.estimation.covariance")
    B = L.module("robuststats.estimation.base")
    ST = L.module("robuststats.estimation.structured")

    class Fun:
        """the estimation function known by its contract (C08-C10, C22): arbitrary results, the arguments are recorded"""

        def __init__(self, name, kind, natural=False):
            self.name, self.kind, self.natural = name, kind, natural
            self.sig = inspect.signature(getattr(M, name))
            self.calls = []

        def __call__(self, *a, **k):
            b = self.sig.bind(*a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            d.update(d.pop("kwargs", {}))
            p = d["X"].shape[1]
            c = len(self.calls)
            r = (sym("COV_%s_%d" % (self.name, c), [p, p], self.kind), scal("err_%s_%d" % (self.name, c)), None if self.natural else sint(Dim("it%d" % c, min=0)))
            self.calls.append((d, r))
            return r

    CLS = {
        "TylerShapeMatrix": ("tyler_shape_matrix", "float"),
        "ComplexTylerShapeMatrix": ("complex_tyler_shape_matrix", "complex"),
        "CenteredStudentMLE": ("student_t_mle_fixed_point", "float"),
        "ComplexCenteredStudentMLE": ("complex_student_t_mle_fixed_point", "complex"),
        "HuberMEstimator": ("huber_m_estimator_fixed_point", "float"),
        "ComplexHuberMEstimator": ("complex_huber_m_estimator_fixed_point", "complex"),
    }

    def setup(cls, natural=False):
        f, kind = CLS[cls]
        names = [f + "_fixedpoint", f + "_naturalgradient"] if "Tyler" in cls else [f]
        fs = {n: Fun(n, kind, "natural" in n) for n in names}
        return fs, names[1 if natural else 0], kind

    class Stubs:
        def __init__(self, fs):
            self.fs = fs

        def __enter__(self):
            self.old = {n: getattr(M, n) for n in self.fs}
            for n, f in self.fs.items():
                setattr(M, n, f)

        def __exit__(self, *a):
            for n, f in self.old.items():
                setattr(M, n, f)

    def params(cls, tag, natural=False, norm="trace"):
        d = {"tol": scal("tol" + tag), "iter_max": sint(Dim("lim" + tag, min=0))}
        if "Tyler" in cls:
            d["normalisation"] = norm
            d["method"] = "natural gradient" if natural else "fixed-point"
        if "Student" in cls:
            d["df"] = scal("df" + tag)
        if "Huber" in cls:
            d["q"] = scal("q" + tag)
        return d

    def build_est(cls, d):
        d = dict(d)
        args = [d.pop(k) for k in ("df", "q") if k in d]
        return getattr(M, cls)(*args, **d)

    def argument(what, got, want):
        if isinstance(want, Arr):
            if RT.oblige(what, isinstance(got, Arr), "%r" % type(got)):
                eq(what, got, list(want.vshape), want)
        elif isinstance(want, str) or want is None or isinstance(want, bool):
            RT.oblige(what, type(got) is type(want) and got == want, "%r, want %r" % (got, want))
        else:
            RT.oblige_eq(what, nfof(got), nfof(want))

    def check_call(fun, X, init, d, natural):
        if not RT.oblige("the estimation function is called", len(fun.calls) > 0, ""):
            return None
        a, r = fun.calls[-1]
        argument("data passed", a["X"], X)
        argument("initial point passed", a.get("init"), init)
        for k in ("df", "q", "normalisation") + (() if natural else ("tol", "iter_max")):
            if k in d:
                argument(k + " passed", a.get(k), d[k])
        return r

    def check_state(est, r, p, kind):
        cov, err, it = r
        eq("covariance_", est.covariance_, [p, p], cov, kind)
        eq("precision_", est.precision_, [p, p], inv(cov))
        eq("get_precision", est.get_precision(), [p, p], inv(cov))
        RT.oblige_eq("err_", nfof(est.err_), nfof(err))
        if it is None:
            RT.oblige("iteration_", est.iteration_ is None, "%r" % (est.iteration_,))
        elif RT.oblige("iteration_", est.iteration_ is not None, "None"):
            RT.oblige_eq("iteration_", nfof(est.iteration_), nfof(it))

    def havoc(est, m, kind):
        """any state an earlier history of fits can have left"""
        est.err_ = scal("olderr")
        est.covariance_ = sym("OLD", [m, m], kind)
        est.precision_ = sym("OLDP", [m, m], kind)
        est.location_ = sym("OLDL", [m], kind)
        est.n_features_in_ = m

    for cls in CLS:
        for natural in ((False, True) if "Tyler" in cls else (False,)):
            lab = cls + (", natural gradient" if natural else "")
            for verb in (False, True):
                for how in ("keyword", "positional", "no initial point", "transform"):
                    @C.scenario("%s: fresh estimator, %s%s" % (lab, how, ", verbose" if verb else ""))
                    def _(cls=cls, natural=natural, verb=verb, how=how):
                        fs, name, kind = setup(cls, natural)
                        n, p = dim("n"), dim("p")
                        X = sym("X", [n, p], kind)
                        init = None if how in ("no initial point", "transform") else sym("I", [p, p], kind)
                        d = params(cls, "", natural)
                        with Stubs(fs):
                            est = build_est(cls, dict(d, verbosity=verb))
                            if how == "keyword":
                                r = est.fit(X, init=init)
                            elif how == "positional":
                                r = est.fit(X, None, init)
                            elif how == "transform":
                                est.fit_transform(X)
                                r = est
                            else:
                                r = est.fit(X)
                        is_same("fit returns the estimator", r, est)
                        res = check_call(fs[name], X, init, d, natural)
                        if res:
                            check_state(est, res, p, kind)

                for before in ("fit", "none", "zero"):
                    for change in ("", "changed parameters", "copied"):
                        @C.scenario("%s: after an arbitrary history (last count: %s)%s%s" % (lab, before, ", " + change if change else "", ", verbose" if verb else ""))
                        def _(cls=cls, natural=natural, verb=verb, before=before, change=change):
                            fs, name, kind = setup(cls, natural)
                            n, p, m = dim("n"), dim("p"), dim("m")
                            X, init = sym("X", [n, p], kind), sym("I", [p, p], kind)
                            d = params(cls, "", natural)
                            with Stubs(fs):
                                est = build_est(cls, dict(d, verbosity=verb))
                                if change == "changed parameters":
                                    est = build_est(cls, dict(params(cls, "_old", not natural, "determinant"), verbosity=verb))
                                est.fit(sym("X0", [dim("n0"), m], kind), init=sym("I0", [m, m], kind))
                                havoc(est, m, kind)
                                if before == "none" and "Tyler" not in cls:
                                    before = "fit"
                                est.iteration_ = {"fit": sint(Dim("oldit", min=0)), "none": None, "zero": 0}[before]
                                if change == "changed parameters":
                                    for k, v in d.items():
                                        setattr(est, k, v)
                                if change == "copied":
                                    other, est = est, copy.deepcopy(est)
                                    other.tol = scal("othertol")
                                    other.iter_max = 1
                                r = est.fit(X, init=init)
                            is_same("fit returns the estimator", r, est)
                            res = check_call(fs[name], X, init, d, natural)
                            if res:
                                check_state(est, res, p, kind)

    for cls in ("TylerShapeMatrix", "ComplexTylerShapeMatrix"):
        for name in ("foo", "", "Fixed-point", "fixed point", "natural", None):
            @C.scenario("%s: unknown method %r" % (cls, name))
            def _(cls=cls, name=name):
                fs, _, kind = setup(cls)
                with Stubs(fs):
                    raises("refused by the constructor", NotImplementedError, lambda: getattr(M, cls)(method=name))
                    for after in (False, True):
                        est = getattr(M, cls)()
                        X = sym("X", [dim("n"), dim("p")], kind)
                        if after:
                            est.fit(X)
                        est.method = name
                        raises("refused by set_method", NotImplementedError, lambda: est.set_method())
                        raises("refused by fit", NotImplementedError, lambda: est.fit(X))

    # ------------------------------------------------------------ empirical and Kronecker estimators
    for centred in (True, False):
        for again in (False, True):
            @C.scenario("RealEmpiricalCovariance: assume_centered=%s%s" % (centred, ", fitted before" if again else ""))
            def _(centred=centred, again=again):
                n, p = dim("n"), dim("p")
                est = B.RealEmpiricalCovariance(assume_centered=centred)
                if again:
                    est.fit(sym("X0", [dim("n0"), dim("m")], "float"))
                X = sym("X", [n, p], "float")
                is_same("fit returns the estimator", est.fit(X), est)
                mean = lambda j: mul(npow(fromP(P_(n)), -1), S(n, lambda t: X.at([t, j])))
                f = (lambda t, i: X.at([t, i])) if centred else (lambda t, i: X.at([t, i]) - mean(i))
                w = lambda i, j: mul(npow(fromP(P_(n)), -1), S(n, lambda t: mul(f(t, i), f(t, j))))
                eq("covariance_", est.covariance_, [p, p], w)
                eq("precision_", est.precision_, [p, p], inv(Mat(w, p)))
                eq("location_", est.location_, [p], (lambda j: const(0)) if centred else mean)

    for again in (False, True):
        for verb in (False, True):
            @C.scenario("KroneckerEllipticalMM%s%s" % (", fitted before" if again else "", ", verbose" if verb else ""))
            def _(again=again, verb=verb):
                a, b, n = dim("a"), dim("b"), dim("n")
                calls = []

                def mm(X, a, b, tol=0.001, iter_max=30, verbosity=False):
                    c = len(calls)
                    r = (sym("A%d" % c, [a, a], "complex"), sym("B%d" % c, [b, b], "complex"), scal("err%d" % c), sint(Dim("it%d" % c, min=0)))
                    calls.append((dict(X=X, a=a, b=b, tol=tol, iter_max=iter_max), r))
                    return r
                tol, lim = scal("tol"), sint(Dim("lim", min=0))
                old = ST.estimation_cov_kronecker_MM
                ST.estimation_cov_kronecker_MM = mm
                try:
                    est = ST.KroneckerEllipticalMM(a, b, tol=tol, iter_max=lim, verbosity=verb)
                    if again:
                        est.fit(sym("X0", [dim("n0"), a * b], "complex"))
                    X = sym("X", [n, a * b], "complex")
                    is_same("fit returns the estimator", est.fit(X), est)
                finally:
                    ST.estimation_cov_kronecker_MM = old
                if RT.oblige("the estimation function is called", bool(calls), ""):
                    d, (A, Bm, err, it) = calls[-1]
                    for k, v in (("X", X), ("a", a), ("b", b), ("tol", tol), ("iter_max", lim)):
                        argument(k + " passed", d[k], v)
                    eq("A_", est.A_, [a, a], A)
                    eq("B_", est.B_, [b, b], Bm)
                    K = lambda i, j: (lambda x, y: mul(A.at([x[0], y[0]]), Bm.at([x[1], y[1]])))(PL.idivmod(toP(i), P_(b)), PL.idivmod(toP(j), P_(b)))
                    eq("covariance_", est.covariance_, [a * b, a * b], K)
