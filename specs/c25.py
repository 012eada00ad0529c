"""score against the log-likelihood formulas; estimation functions are used through their contracts (any HPD result)."""
from rsv.spec import *
from rsv import shims
from .c03 import logt, lognormal


def state(e):
    return {k: (v, v.cell.body.key if isinstance(v, Arr) else None) for k, v in vars(e).items()}


def unchanged(name, e, before):
    now = state(e)
    RT.oblige(name + ": score leaves the fitted state as it was", set(now) == set(before) and all(now[k][0] is before[k][0] and now[k][1] == before[k][1] for k in now), "%s" % [k for k in now if k not in before or now[k] != before[k]], "frame")


def register(L):
    C = check("C25")
    M = L.module("robuststats.estimation.covariance")
    B = L.module("robuststats.estimation.base")
    SK = L.module("sklearn.covariance._empirical_covariance")

    class stub:
        """an estimation function known by its contract: the covariance cov, any error, any count"""

        def __init__(self, mod, names, r):
            self.mod, self.names, self.r = mod, names, r

        def __enter__(self):
            self.old = [getattr(self.mod, n) for n in self.names]
            for n in self.names:
                setattr(self.mod, n, lambda *a, **k: self.r)

        def __exit__(self, *a):
            for n, o in zip(self.names, self.old):
                setattr(self.mod, n, o)

    for real in (True, False):
        cls, fn = (("" if real else "Complex") + "CenteredStudentMLE"), (("" if real else "complex_") + "student_t_mle_fixed_point")
        for xk in ("float", "complex"):
            if real and xk == "complex":
                continue        # refused by the real t density of scipy, outside the property
            for it in ("any", "none"):
                @C.scenario("%s: %s test data, %s" % (cls, xk, "fit that took %s iteration%s" % ("no" if it == "none" else "some", "" if it == "none" else "s")))
                def _(real=real, cls=cls, fn=fn, xk=xk, it=it):
                    n, N_, p = dim("n"), dim("N", 2), dim("p", 2)
                    df = scal("df", pos=True)
                    Q = msym("C", p, "hpd", real)
                    e = getattr(M, cls)(df)
                    RT.oblige("unfitted: None", e.score(sym("X", [n, p], xk)) is None, "a value is returned")
                    RT.oblige("unfitted: an error is logged", any(v[:2] == ("log", "error") for v in RT.events), "no error log")
                    with stub(M, [fn], (mat(Q), scal("err"), sint(Dim("it", min=1)) if it == "any" else 0)):
                        e.fit(sym("D", [N_, p], "float" if real else "complex"))
                    b = state(e)
                    X = sym("X", [n, p], xk)
                    f = logt(X, lambda i: const(0), Q, df, not real)
                    for k in (1, 2):
                        v = e.score(X)
                        eq("call %d: sum of the log-densities of the samples" % k, v, [], lambda: S(n, lambda t: f(t)), "float")
                        unchanged("call %d" % k, e, b)

    def gauss(X, m, Q, n):
        f = lognormal(X, m, Q, False)
        return lambda: N.mul(npow(fromP(P_(n)), -1), S(n, lambda t: f(t)))

    for store in (True, False):
        for cent in (True, False):
            @C.scenario("empirical estimator: store_precision=%s, assume_centered=%s" % (store, cent))
            def _(store=store, cent=cent):
                n, N_, p = dim("n", 2), dim("N", 2), dim("p", 2)
                Q = msym("C", p, "hpd", True)
                e = B.RealEmpiricalCovariance(store_precision=store, assume_centered=cent)
                D = sym("D", [N_, p], "float")
                with stub(SK, ["empirical_covariance"], mat(Q)):
                    e.fit(D)
                X = sym("X", [n, p], "float")
                m = (lambda i: const(0)) if cent else (lambda i: N.mul(npow(fromP(P_(N_)), -1), S(N_, lambda t: D.at([t, i]))))
                b = state(e)
                for k in (1, 2):
                    eq("call %d: mean Gaussian log-likelihood at the fitted location" % k, e.score(X), [], gauss(X, m, Q, n), "float")
                    unchanged("call %d" % k, e, b)

    for meth in ("fixed-point", "natural gradient"):
        for how in ("default", "named"):
            @C.scenario("Tyler, %s, %s model" % (meth, how))
            def _(meth=meth, how=how):
                n, N_, p = dim("n", 2), dim("N", 2), dim("p", 2)
                Q = msym("C", p, "hpd", True)
                with stub(M, ["tyler_shape_matrix_fixedpoint", "tyler_shape_matrix_naturalgradient"], (mat(Q), scal("err"), sint(Dim("it", min=0)) if meth[0] == "f" else None)):
                    e = M.TylerShapeMatrix(method=meth)
                    e.fit(sym("D", [N_, p], "float"))
                X = sym("X", [n, p], "float")
                b = state(e)
                for k in (1, 2):
                    v = e.score(X) if how == "default" else e.score(X, model="Gaussian")
                    eq("call %d: mean Gaussian log-likelihood at location zero" % k, v, [], gauss(X, lambda i: const(0), Q, n), "float")
                    unchanged("call %d" % k, e, b)

    for cls in ("TylerShapeMatrix", "ComplexTylerShapeMatrix"):
        for fitted in (True, False):
            @C.scenario("%s, unknown models, %s" % (cls, "fitted" if fitted else "not fitted"))
            def _(cls=cls, fitted=fitted):
                n, p = dim("n", 2), dim("p", 2)
                kind = "complex" if cls[0] == "C" else "float"
                f = ("complex_" if kind == "complex" else "") + "tyler_shape_matrix_fixedpoint"
                with stub(M, [f], (mat(msym("C", p, "hpd", kind == "float")), scal("err"), 3)):
                    e = getattr(M, cls)()
                    if fitted:
                        e.fit(sym("D", [n, p], kind))
                b = state(e)
                for model in ("gaussian", "Student", "", None, "Angular"):
                    raises("model %r is refused" % (model,), NotImplementedError, lambda: e.score(sym("X", [n, p], kind), model=model))
                unchanged("refused", e, b)

    for cls in ("HuberMEstimator", "ComplexHuberMEstimator"):
        for fitted in (True, False):
            @C.scenario("%s, %s" % (cls, "fitted" if fitted else "not fitted"))
            def _(cls=cls, fitted=fitted):
                n, p = dim("n", 2), dim("p", 2)
                kind = "complex" if cls[0] == "C" else "float"
                with stub(M, [("complex_" if kind == "complex" else "") + "huber_m_estimator_fixed_point"], (mat(msym("C", p, "hpd", kind == "float")), scal("err"), 3)):
                    e = getattr(M, cls)(F(9, 10))
                    if fitted:
                        e.fit(sym("D", [n, p], kind))
                b = state(e)
                raises("refused", NotImplementedError, lambda: e.score(sym("X", [n, p], kind)))
                unchanged("refused", e, b)
