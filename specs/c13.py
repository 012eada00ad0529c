from rsv.spec import *


class FAContract:
    """contract of _FeatureArray (proved as C15): a sequence of tuples of arrays, append adds at the end.
    Entries are held as one array per part with the entries along the first axis."""

    def __init__(self, *shape):
        self.shapes = shape
        self.n = sint(toP(0))
        self.parts = None

    def __len__(self):
        return self.n

    def append(self, data):
        if type(data) is FAContract:
            new = list(data.parts)
            m = data.n
        else:
            data = [data] if isinstance(data, Arr) else list(data)
            if len(data) != len(self.shapes) or not all(isinstance(d, Arr) for d in data):
                raise ValueError("number or type of the parts")
            new = [d if d.ndim == len(s) + 1 else d[None, ...] for d, s in zip(data, self.shapes)]
            if any(d.ndim != len(s) + 1 for d, s in zip(new, self.shapes)):
                raise ValueError("number of dimensions")
            m = new[0].shape[0]
        if self.parts is None:
            self.parts = new
        else:
            for i, b in enumerate(new):
                self.parts[i] = np.concatenate([self.parts[i], b], axis=0)
        self.n = self.n + m


def register(L):
    C = check("C13")
    B = L.module("robuststats.estimation.base")

    class Est:
        """estimator known by its contract (C11): the outcome of fit depends only on its arguments and parameters"""

        def __init__(self, kind="complex"):
            self.kind = kind
            self.count = 0

        def result(self, x, kw):
            p = x.shape[-1]
            return opaque("F", [x] + [kw[k] for k in sorted(kw)], [p, p], self.kind)

        def fit(self, x, y=None, **kw):
            self.count = self.count + 1
            self.covariance_ = self.result(x, kw)
            return self

        def fit_transform(self, x, **kw):
            return self.fit(x, **kw).covariance_

    def entry(X, k, kw, real, i, j):
        t, n, p = X.vshape
        x = lam([n, p], lambda a, b: X.at([k, a, b]))
        return N.nfac(N.At("F", (i, j), False, real, False, (x,) + tuple(arg(kw[q]) for q in sorted(kw))))

    for kind in ("float", "complex", "int"):
        for jobs in (1, 2, -1):
            for kws in ((), ("init",), ("init", "y0")):
                for again in (False, True):
                    @C.scenario("CovariancesEstimation: %s data, n_jobs=%s, options %s%s" % (kind, jobs, list(kws), ", called before" if again else ""))
                    def _(kind=kind, jobs=jobs, kws=kws, again=again):
                        t, n, p = dim("t"), dim("n"), dim("p")
                        X = sym("X", [t, n, p], kind)
                        kd = "float" if kind == "int" else kind
                        kw = {k: sym(k, [p, p], kd) for k in kws}
                        est = Est(kd)
                        T = B.CovariancesEstimation(est) if jobs == 1 else B.CovariancesEstimation(est, n_jobs=jobs)
                        is_same("fit returns the transformer", T.fit(X), T)
                        if again:
                            T.transform(sym("X0", [dim("t0"), n, p], kind))
                        RT.shared_tasks = True
                        r = T.transform(X, **kw)
                        eq("covariance of each trial", r, [t, p, p], lambda k, i, j: entry(X, k, kw, kd == "float", i, j), kd)

    @C.scenario("CovariancesEstimation with the complex empirical covariance")
    def _():
        t, n, p = dim("t"), dim("n"), dim("p")
        X = sym("X", [t, n, p], "complex")
        T = B.CovariancesEstimation(B.ComplexEmpiricalCovariance(assume_centered=True))
        r = T.transform(X)
        eq("covariance of each trial", r, [t, p, p], lambda k, i, j: mul(npow(fromP(P_(n)), -1), S(n, lambda s: mul(X.at([k, s, i]), conj(X.at([k, s, j]))))), "complex")

    # ------------------------------------------------------------ features
    class Multi(Est):
        def fit_transform(self, x, **kw):
            self.count = self.count + 1
            p = x.shape[-1]
            return [opaque("F0", [x], [p, p], "complex"), opaque("F1", [x], [p], "float")]

    class Scalar(Est):
        def fit_transform(self, x, **kw):
            self.count = self.count + 1
            return opaque("F2", [x], [], self.kind).item()

    real = B._FeatureArray
    for which in ("matrix", "several parts", "number"):
        for jobs in (1, 2):
            @C.scenario("FeaturesEstimation: %s, n_jobs=%s" % (which, jobs))
            def _(which=which, jobs=jobs):
                t, n, p = dim("t"), dim("n"), dim("p")
                X = sym("X", [t, n, p], "complex")
                est = {"matrix": Est, "several parts": Multi, "number": Scalar}[which]("complex")
                B._FeatureArray = FAContract
                try:
                    T = B.FeaturesEstimation(est) if jobs == 1 else B.FeaturesEstimation(est, n_jobs=jobs)
                    is_same("fit returns the transformer", T.fit(X), T)
                    RT.shared_tasks = True
                    r = T.transform(X)
                finally:
                    B._FeatureArray = real
                if not RT.oblige("a feature array", type(r) is FAContract, "%r" % type(r)):
                    return
                RT.oblige("one entry per trial", same(P_(r.__len__()), P_(t)), "%s" % (r.__len__(),))
                parts = {"matrix": [("F", [p, p], False)], "several parts": [("F0", [p, p], False), ("F1", [p], True)], "number": [("F2", [1], False)]}[which]
                if RT.oblige("number of parts", r.parts is not None and len(r.parts) == len(parts), "%r" % (r.parts,)):
                    for a, (nm, sh, rl) in zip(r.parts, parts):
                        def f(k, *ix, nm=nm, rl=rl, X=X):
                            x = lam([P_(n), P_(p)], lambda u, v: X.at([k, u, v]))
                            return N.nfac(N.At(nm, () if nm == "F2" else ix, False, rl, False, (x,)))
                        eq("entry of each trial: " + nm, a, [t] + sh, f)
