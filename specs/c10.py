from rsv.spec import *
from .fixedpoint import FixedPoint


def fmin(a, b):
    return nfof(np.minimum(mk(a), mk(b)))


def register(L):
    C = check("C10")
    m = L.module("robuststats.estimation.covariance")
    chi = lambda nm, x, k: N.mk_fn("chi2." + nm, [x, k])

    def params(real, q, p):
        P = fromP(P_(p))
        if real:
            a = chi("ppf", q, P)
            F_ = chi("cdf", a, P + const(2))
        else:
            a = N.mul(half, chi("ppf", q, P + P))
            F_ = chi("cdf", a + a, P + P + const(2))
        b = F_ + N.mul(N.mul(a, const(1) - q), npow(P, -1))
        return a, b
    for real in (True, False):
        fn = (lambda *a, **k: m.huber_m_estimator_fixed_point(*a, **k)) if real else (lambda *a, **k: m.complex_huber_m_estimator_fixed_point(*a, **k))
        kd = "real" if real else "complex"

        def weight(q, p, real=real):
            a, b = params(real, nfof(q), p)
            return lambda d: N.mul(fmin(const(1), N.mul(a, npow(d, -1))), npow(b, -1))
        for init in ("default", "given"):
            @C.scenario("Huber fixed point, %s, %s start" % (kd, init))
            def _(fn=fn, weight=weight, real=real, init=init):
                n, p = dim("n", 2 if init == "default" else 1), dim("p")
                q = scal("q", pos=True)
                RT.assume(q < 1)
                fp = FixedPoint(real, weight(q, p), init, n=n, p=p)
                tol, it = scal("tol"), pint("iter_max")
                fp.run(lambda: fn(fp.X, q, init=fp.init, tol=tol, iter_max=it), tol, it)

        @C.scenario("progress bar does not change the result, %s" % kd)
        def _(fn=fn, weight=weight, real=real):
            n, p = dim("n"), dim("p")
            q = scal("q", pos=True)
            RT.assume(q < 1)
            fp = FixedPoint(real, weight(q, p), "given", n=n, p=p)
            tol, it = scal("tol"), pint("iter_max")
            fp.run(lambda: fn(fp.X, q, init=fp.init, tol=tol, iter_max=it, verbosity=True), tol, it)

    @C.scenario("weight function")
    def _():
        n = dim("n")
        x = sym("d", [n], pos=True)
        a, b = scal("a", pos=True), scal("b", pos=True)
        w = m._huber_m_estimator_function(x, a, b)
        eq("u(d) = min(1, a/d)/b", w, [n], lambda i: N.mul(fmin(const(1), N.mul(nfof(a), npow(x.at([i]), -1))), npow(nfof(b), -1)))
        x0 = scal("x0", pos=True)
        raises("non-positive threshold", AssertionError, lambda: m._huber_m_estimator_function(x0, 0, b))
        raises("negative threshold", AssertionError, lambda: m._huber_m_estimator_function(x0, -a, b))
        raises("negative b", AssertionError, lambda: m._huber_m_estimator_function(x0, a, -b))

    @C.scenario("samples within the threshold share the maximal weight")
    def _():
        a, b, d = scal("a", pos=True), scal("b", pos=True), scal("d", pos=True)
        w = m._huber_m_estimator_function(d, a, b)
        RT.assume(d <= a)
        # min(1, a/d) with a/d >= 1: case split on the minimum itself
        r = nfof(a / d)
        true("a/d >= 1 within the threshold", rt.cmp_nf(N.mul(r - const(1), nfof(d)), ">="))
