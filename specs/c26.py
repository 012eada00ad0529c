from rsv.spec import *
from rsv.loops import ArrOrbit


def al(shape, f):
    return lam(shape, f)


class Manifold:
    """manifold known only by its contract: retr is an arbitrary function of the point and the tangent vector"""

    def __init__(self, struct, p, q, real):
        self.struct, self.p, self.q, self.real = struct, p, q, real

    def retr(self, x, u):
        if self.struct is None:
            return mat(msym("R", self.p, "hpd", self.real, (arg(x), arg(u))), frozen=False)
        RT.oblige("the tangent vector has the structure of the gradient", type(u) is type(self.gtype) and len(u) == len(x), "%r" % type(u))
        ps = [arg(t) for t in list(x) + list(u)]
        k = "float" if self.real else "complex"
        r = [opaque("R0", ps, x[0].shape, k), opaque("R1", ps, x[1].shape, k)]
        return r if self.struct == "list" else tuple(r)


def register(L):
    C = check("C26")
    m = L.module("robuststats.online.estimation")

    def world(struct, real, e2c, gkind=None):
        """struct: how the estimate and gradient are held; e2c: whether an image map is given"""
        n, p, q = dim("n"), dim("p"), dim("q")
        kind = "float" if real else "complex"
        X = sym("X", [n, p], kind)
        lr = scal("lrate", pos=True)
        man = Manifold(struct, p, q, real)
        man.gtype = [] if gkind == "list" else ()
        calls = []

        def rgrad(x, est):
            calls.append((x, est))
            if struct is None:
                return opaque("G", [x, est], [p, p], kind)
            ps = [x] + list(est)
            g = [opaque("G0", ps, est[0].shape, kind), opaque("G1", ps, est[1].shape, kind)]
            return g if gkind == "list" else tuple(g)

        def image(est):
            ps = [arg(t) for t in (est if isinstance(est, (list, tuple)) else [est])]
            return mat(msym("COV", p, "hpd", False, tuple(ps)), frozen=False)
        est = m.StochasticGradientCovarianceEstimator(man, rgrad, lr, estimatetocov=image if e2c else None)
        if struct is None:
            init = mat(msym("x0", p, "hpd", real))
        else:
            init = [sym("a0", [p, p], kind), sym("b0", [q, 1], kind)]
            init = init if struct == "list" else tuple(init)
        return n, p, q, kind, X, lr, man, rgrad, image, est, init, calls

    def stepper(struct, n, p, q, kind, X, lr, real, rate):
        """contract step: x -> R(x, t_k G(X[k], x)) on entry functions"""
        t = lambda k: mul(nfof(lr), npow(fromP(toP(k)) + const(1), -1)) if rate == "inverse" else nfof(lr)
        row = lambda k: lam([toP(1), P_(p)], lambda i, j: X.at([toP(k), j]))
        if struct is None:
            def step(k, fs):
                x = lam([p, p], fs[0])
                g = lambda i, j: N.nfac(N.At("G", (i, j), False, kind != "complex", False, (row(k), x)))
                u = lam([p, p], lambda i, j: mul(t(k), g(i, j)))
                return [N.MSym("R", P_(p), (x, u), "hpd", real).at]
            return step

        def step(k, fs):
            sh = [[p, p], [q, 1]]
            xs = tuple(lam(s, f) for s, f in zip(sh, fs))
            us = tuple(lam(s, (lambda nm: lambda i, j: mul(t(k), N.nfac(N.At(nm, (i, j), False, kind != "complex", False, (row(k),) + xs))))(nm)) for s, nm in zip(sh, ("G0", "G1")))
            return [(lambda nm: lambda i, j: N.nfac(N.At(nm, (i, j), False, kind != "complex", False, xs + us)))(nm) for nm in ("R0", "R1")]
        return step

    def comps(struct, init, p, q, kind):
        e = lambda a: (lambda i, j: a.at([i, j]))
        if struct is None:
            return [("x", [P_(p), P_(p)], kind, e(init), True)]
        return [("xa", [P_(p), P_(p)], kind, e(init[0])), ("xb", [P_(q), toP(1)], kind, e(init[1]))]

    def cov_of(struct, e2c, fs, p, q, real):
        if not e2c:
            return fs[0]
        sh = [[p, p]] if struct is None else [[p, p], [q, 1]]
        return N.MSym("COV", P_(p), tuple(lam(s, f) for s, f in zip(sh, fs)), "hpd", False).at

    def state(name, est, orb, k, k1, struct, e2c, n, p, q, real, kind):
        """the estimate is the k-th point of the orbit (k may be unfolded) and the covariance its image"""
        forms = [orb.init() if toP(k).const() == 0 else orb.fns(k)]
        if toP(k).const() != 0:
            forms.append(orb.step(k1, orb.fns(k1) if toP(k1).const() != 0 else orb.init()))
        got = est.estimate_
        gl = [got] if struct is None else got
        if struct is not None and not RT.oblige(name + ": structure of the estimate", isinstance(got, list if struct == "list" else tuple) and len(got) == 2, "%r" % type(got)):
            return
        for ci, a in enumerate(gl):
            if not shape_eq(name + ": estimate", a, orb.comps[ci][1]):
                return
            i, j = [toP(fresh(s, "q")) for s in a.vshape]
            ok = any(rt.prove_eq(a.at([i, j]), f[ci](i, j)) for f in forms)
            RT.oblige(name + ": estimate after the steps so far", ok, "code: %s\nspec: %s" % (N.show(a.at([i, j])), N.show(forms[-1][ci](i, j))))
        cv = est.covariance_
        if shape_eq(name + ": covariance", cv, [p, p]):
            i, j = toP(fresh(P_(p), "q")), toP(fresh(P_(p), "q"))
            ok = any(rt.prove_eq(cv.at([i, j]), cov_of(struct, e2c, f, p, q, real)(i, j)) for f in forms)
            RT.oblige(name + ": covariance is the image of the estimate", ok, "code: %s\nspec: %s" % (N.show(cv.at([i, j])), N.show(cov_of(struct, e2c, forms[-1], p, q, real)(i, j))))

    for real in (True, False):
        kd = "real" if real else "complex"
        for struct, gk in ((None, None), ("list", "list"), ("tuple", "tuple"), ("list", "tuple"), ("tuple", "list")):
            for e2c in ((False, True) if struct is None and not real else (True,)):
                for rate, args in (("inverse", {}), ("inverse", {"lr_update": "inverse iteration"}), ("constant", {"lr_update": "constant"}), ("constant", {"lr_update": None})):
                    nm = "%s, %s estimate, %s gradient%s, %s" % (kd, struct or "array", gk or "array", "" if not e2c else ", image map", args.get("lr_update", "default") if args else "default rule")

                    @C.scenario("fit: " + nm)
                    def _(real=real, struct=struct, gk=gk, e2c=e2c, rate=rate, args=args):
                        n, p, q, kind, X, lr, man, rgrad, image, est, init, calls = world(struct, real, e2c, gk)
                        orb = ArrOrbit(comps(struct, init, p, q, kind), stepper(struct, n, p, q, kind, X, lr, real, rate), struct)
                        RT.orbits = [orb]
                        r = est.fit(X, init=init, **args)
                        is_same("fit returns the estimator", r, est)
                        state("after fit", est, orb, P_(n), P_(n) - 1, struct, e2c, n, p, q, real, kind)

                    if args:
                        @C.scenario("update: " + nm)
                        def _(real=real, struct=struct, gk=gk, e2c=e2c, rate=rate, args=args):
                            n, p, q, kind, X, lr, man, rgrad, image, est, init, calls = world(struct, real, e2c, gk)
                            st = stepper(struct, n, p, q, kind, X, lr, real, rate)
                            orb = ArrOrbit(comps(struct, init, p, q, kind), st, struct)
                            est.set_estimate(init)
                            state("after set_estimate", est, orb, 0, 0, struct, e2c, n, p, q, real, kind)
                            is_same("the estimate is the given one", est.estimate_, init)
                            x = X[0:1]
                            r = est.update(x, args["lr_update"])
                            is_same("update returns the estimator", r, est)
                            state("after one update", est, orb, 1, 0, struct, e2c, n, p, q, real, kind)

    @C.scenario("no initial estimate")
    def _():
        n, p, q, kind, X, lr, man, rgrad, image, est, init, calls = world(None, False, False)
        before = dict(est.__dict__)
        k = len(logs())
        for call in (lambda: est.fit(X), lambda: est.fit(X, None), lambda: est.fit(X, init=None, lr_update="constant"), lambda: est.update(X[0:1], "inverse iteration"), lambda: est.update(X[0:1], "constant")):
            r = call()
            is_same("returns the estimator", r, est)
            RT.oblige("an error is logged", len([e for e in logs() if e[1] in ("error", "critical", "exception")]) > k, "%r" % (logs(),))
            k = len(logs())
            RT.oblige("the estimator is unchanged", set(before) == set(est.__dict__) and all(est.__dict__[a] is before[a] or (isinstance(before[a], (int, bool, str)) and est.__dict__[a] == before[a]) for a in before), "%r" % (est.__dict__,))
        RT.oblige("the gradient is not called", not calls)

    @C.scenario("progress display does not change the result")
    def _():
        n, p, q, kind, X, lr, man, rgrad, image, est, init, calls = world(None, False, False)
        est = m.StochasticGradientCovarianceEstimator(man, rgrad, lr, cost=lambda X, e: opaque("cost", [X, e], []), verbosity=True)
        orb = ArrOrbit(comps(None, init, p, q, kind), stepper(None, n, p, q, kind, X, lr, False, "inverse"), None)
        RT.orbits = [orb]
        est.fit(X, init=init)
        state("after fit", est, orb, P_(n), P_(n) - 1, None, False, n, p, q, False, kind)
