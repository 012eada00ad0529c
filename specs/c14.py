from rsv.spec import *


def register(L):
    C = check("C14")
    B = L.module("robuststats.estimation.base")

    def mean(X, n, j):
        return mul(npow(fromP(P_(n)), -1), S(n, lambda t: X.at([t, j])))

    def cov(X, n, centred):
        f = (lambda t, i: X.at([t, i])) if centred else (lambda t, i: X.at([t, i]) - mean(X, n, i))
        return lambda i, j: mul(npow(fromP(P_(n)), -1), S(n, lambda t: mul(f(t, i), conj(f(t, j)))))

    def psd(name, c, p, X, n, centred):
        """z^H C z is the mean of the squared moduli of the centred samples along z, for an arbitrary z"""
        z = lambda i: N.nfac(N.At("z", (P_(i),), False, False))
        f = (lambda t, i: X.at([t, i])) if centred else (lambda t, i: X.at([t, i]) - mean(X, n, i))
        q = S(p, lambda i: S(p, lambda j: mul(mul(conj(z(i)), c(i, j)), z(j))))

        def sq(t):
            a = S(p, lambda i: mul(conj(z(i)), f(t, i)))
            return mul(a, conj(a))
        RT.oblige_eq(name, q, mul(npow(fromP(P_(n)), -1), S(n, sq)))

    for kind in ("complex", "float"):
        for centred in (True, False, None):
            @C.scenario("complex_empirical_covariance: %s samples, assume_centered %s" % (kind, centred))
            def _(kind=kind, centred=centred):
                n, p = dim("n"), dim("p")
                X = sym("X", [n, p], kind)
                c = B.complex_empirical_covariance(X) if centred is None else B.complex_empirical_covariance(X, assume_centered=centred)
                w = cov(X, n, bool(centred))
                eq("sample covariance", c, [p, p], w)
                if isinstance(c, Arr) and c.ndim == 2:
                    i, j = toP(fresh(P_(p), "q")), toP(fresh(P_(p), "q"))
                    RT.oblige_eq("Hermitian", c.at([i, j]), conj(c.at([j, i])))
                    psd("positive semi-definite", lambda a, b: c.at([a, b]), p, X, n, bool(centred))

        @C.scenario("complex_empirical_covariance: one %s sample given as a vector" % kind)
        def _(kind=kind):
            p = dim("p")
            x = sym("x", [p], kind)
            c = B.complex_empirical_covariance(x, assume_centered=True)
            eq("outer product", c, [p, p], lambda i, j: mul(x.at([i]), conj(x.at([j]))))
            eq("no spread", B.complex_empirical_covariance(x), [p, p], lambda i, j: const(0))

    for centred in (True, False):
        for store in (True, False):
            for refit in (False, True):
                @C.scenario("fit: assume_centered=%s, store_precision=%s%s" % (centred, store, ", fitted before" if refit else ""))
                def _(centred=centred, store=store, refit=refit):
                    n, p = dim("n"), dim("p")
                    e = B.ComplexEmpiricalCovariance(store_precision=store, assume_centered=centred)
                    if refit:
                        e.fit(sym("X0", [dim("m"), p], "complex"))
                    X = sym("X", [n, p], "complex")
                    y = e.fit(X)
                    is_same("fit returns the estimator", y, e)
                    w = cov(X, n, centred)
                    eq("covariance_", e.covariance_, [p, p], w, "complex")
                    eq("location_", e.location_, [p], (lambda j: const(0)) if centred else (lambda j: mean(X, n, j)), "complex")
                    if store:
                        eq("precision_ is the (pseudo-)inverse", e.precision_, [p, p], inv(Mat(w, p)))
                    else:
                        RT.oblige("precision_ is None", e.precision_ is None, "%r" % (e.precision_,))
                    eq("get_precision", e.get_precision(), [p, p], inv(Mat(w, p)))
                    is_same("transform returns the stored covariance", e.transform(X), e.covariance_)
                    eq("fit_transform", e.fit_transform(X), [p, p], w)

    @C.scenario("fit: default arguments")
    def _():
        n, p = dim("n"), dim("p")
        X = sym("X", [n, p], "complex")
        e = B.ComplexEmpiricalCovariance().fit(X)
        w = cov(X, n, False)
        eq("covariance_", e.covariance_, [p, p], w)
        eq("location_", e.location_, [p], lambda j: mean(X, n, j))
        eq("precision_", e.precision_, [p, p], inv(Mat(w, p)))

    @C.scenario("the mean is used and not the stored location of another fit")
    def _():
        n, p = dim("n"), dim("p")
        X = sym("X", [n, p], "complex")
        e = B.ComplexEmpiricalCovariance()
        e.fit(sym("X0", [dim("m"), p], "complex"))
        e.assume_centered = True
        e.store_precision = False
        e.fit(X)
        eq("covariance_ follows the parameters now held", e.covariance_, [p, p], cov(X, n, True))
        eq("location_ zero", e.location_, [p], lambda j: const(0))
        RT.oblige("precision_ dropped", e.precision_ is None, "")

    # ------------------------------------------------------------------ error norm
    def fro(p, d):
        return S(p, lambda i: S(p, lambda j: mul(d(i, j), conj(d(i, j)))))

    for kind in ("complex", "float"):
        for norm in ("frobenius", "spectral", "default"):
            for scaling in (True, False, None):
                for squared in (True, False, None):
                    @C.scenario("error_norm: %s matrix, %s, scaling=%s, squared=%s" % (kind, norm, scaling, squared))
                    def _(kind=kind, norm=norm, scaling=scaling, squared=squared):
                        p = dim("p")
                        e = B.ComplexEmpiricalCovariance()
                        Cm = hpd("C", p)
                        e.covariance_ = Cm
                        D = herm("D", p) if kind == "complex" else herm("D", p, True)
                        kw = {}
                        if norm != "default":
                            kw["norm"] = norm
                        if scaling is not None:
                            kw["scaling"] = scaling
                        if squared is not None:
                            kw["squared"] = squared
                        v = e.error_norm(D, **kw)
                        d = lambda i, j: D.at([i, j]) - Cm.at([i, j])
                        sc = npow(fromP(P_(p)), -1) if scaling is not False else const(1)
                        fin = (lambda x: npow(mul(x, sc), half)) if squared is False else (lambda x: mul(x, sc))
                        if not RT.oblige("a scalar", isinstance(v, Sc) or isinstance(v, Arr) and v.ndim == 0, "%r" % type(v)):
                            return
                        v = v.item() if isinstance(v, Arr) else v
                        # sums of squared moduli / squared singular values: real and non-negative by form
                        RT.oblige("real", v.kind != "complex", v.kind)
                        if norm == "spectral":
                            # largest squared singular value of D - C, or equally the largest singular value of (D - C)^H (D - C)
                            E = build([P_(p), P_(p)], d, "complex")
                            G = build([P_(p), P_(p)], lambda i, j: S(p, lambda t: mul(conj(d(t, i)), d(t, j))), "complex")
                            ws = [fin(np.gram_eigs(E)(0)), fin(npow(np.gram_eigs(G)(0), half))]
                            RT.oblige("value", any(rt.prove_eq(nfof(v), w) for w in ws), "code: %s\nspec: %s" % (N.show(nfof(v)), N.show(ws[0])), "nf")
                        else:
                            RT.oblige_eq("value", nfof(v), fin(fro(p, d)))
                        z = e.error_norm(build([P_(p), P_(p)], lambda i, j: Cm.at([i, j]), "complex"), **kw)
                        eq("zero at the stored covariance", z, [], lambda: const(0))

    @C.scenario("error_norm: unknown norm")
    def _():
        p = dim("p")
        e = B.ComplexEmpiricalCovariance()
        e.covariance_ = hpd("C", p)
        raises("refused", NotImplementedError, lambda: e.error_norm(hpd("D", p), norm="nuclear"))

    # ------------------------------------------------------------------ real counterpart used by the real estimators
    @C.scenario("real estimator: transform returns the stored covariance")
    def _():
        n, p = dim("n"), dim("p")
        X = sym("X", [n, p])
        e = B.RealEmpiricalCovariance(assume_centered=True)
        is_same("fit returns the estimator", e.fit(X), e)
        is_same("transform", e.transform(X), e.covariance_)
        eq("covariance_", e.covariance_, [p, p], lambda i, j: mul(npow(fromP(P_(n)), -1), S(n, lambda t: mul(X.at([t, i]), X.at([t, j])))))
