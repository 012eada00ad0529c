"""Kronecker MM: the factors returned are the K-th iterate of the block map (A first, then B with the new A), K the count
returned, the first at which the change is at most the tolerance or the limit."""
from rsv.spec import *
from rsv.loops import Orbit
from .fixedpoint import relchange
from .c24 import kron


def geo(M, G):
    """geometric mean M # G = M^1/2 (M^-1/2 G M^-1/2)^1/2 M^1/2"""
    n = M.size
    h, ih = powm(M, half), powm(M, -half)
    K = Mat(mm(n, ih, G.at, ih), n)
    return mm(n, h, powm(K, half), h)


class MM:
    def __init__(self, X, n, a, b, kind):
        self.kind, real = ("complex", False) if kind == "complex" else ("float", True)
        self.real = real
        self.X, self.n, self.a, self.b = X, n, P_(a), P_(b)
        one = lambda i, j: N.delta(i, j)
        self.orbit = Orbit([("Ak", self.a, "hpd", real, one), ("Bk", self.b, "hpd", real, one)], lambda ms: self.step(*(Mat(f, s) for f, s in zip(ms, (self.a, self.b)))))
        RT.orbits = [self.orbit]

    def it(self, k):
        k = toP(k)
        if k.const() == 0:
            return Mat(lambda i, j: N.delta(i, j), self.a), Mat(lambda i, j: N.delta(i, j), self.b)
        return N.MSym("Ak", self.a, (k,), "hpd", self.real), N.MSym("Bk", self.b, (k,), "hpd", self.real)

    def step(self, A, B):
        X, a, b, n = self.X, self.a, self.b, self.n
        x = lambda t, k, l: X.at([t, toP(k) + toP(l) * b])          # M_t[k, l], b x a column-major
        ib, ia = inv(B), inv(A)
        NA = lambda t, i, j: S(b, lambda k: S(b, lambda l: N.mul(N.mul(x(t, k, i), ib(l, k)), conj(x(t, l, j)))))
        q = lambda t: S(a, lambda i: S(a, lambda j: N.mul(ia(i, j), NA(t, j, i))))
        c = lambda s: N.mul(fromP(s), npow(fromP(P_(n)), -1))
        A2 = Mat(geo(A, Mat(lambda i, j: N.mul(c(a), S(n, lambda t: N.mul(NA(t, i, j), npow(q(t), -1)))), a)), a)
        ia2 = inv(A2)
        q2 = lambda t: S(a, lambda i: S(a, lambda j: N.mul(ia2(i, j), NA(t, j, i))))
        NB = lambda t, k, l: S(a, lambda i: S(a, lambda j: N.mul(N.mul(x(t, k, i), ia2(j, i)), conj(x(t, l, j)))))
        B2 = geo(B, Mat(lambda k, l: N.mul(c(b), S(n, lambda t: N.mul(NB(t, k, l), npow(q2(t), -1)))), b))
        return [A2.at, B2]


    def change(self, new, old):
        return N.mk_fn("max", [relchange(s, f.at, g.at) for s, f, g in zip((self.a, self.b), new, old)])

    def iterate(self, K, unfold):
        return [Mat(f, s) for f, s in zip(self.step(*self.it(K - 1)), (self.a, self.b))] if unfold else self.it(K)

    def run(self, call, tol, itm):
        """call() -> (A, B, error, count)"""
        over = lambda d: RT.proves_eq(rt.cmp_nf(d - nfof(tol), ">"))

        def cont(L, k):
            kk = toP(k)
            RT.oblige("continues only below the limit", RT.proves(rt.cmp_nf(nfof(itm) - fromP(kk) - const(1), ">=")), "iteration %s runs although the limit may be reached" % kk.key, "z3")
            if kk.const() == 0:
                return
            ok = any(over(self.change(self.iterate(kk, u), self.it(kk - 1))) for u in (False, True))
            RT.oblige("continues only above the tolerance", ok, "iteration %s runs although the change may be at most the tolerance; facts: %s" % (kk.key, [f.key[:300] for f in RT.facts]), "z3")
        RT.on_continue = cont
        r = call()
        if r is None or not isinstance(r, tuple) or len(r) != 4:
            RT.oblige("returns A, B, error, count", False, "%r" % (r,))
            return
        A, B, delta, count = r
        K = rt.as_poly(count)
        if K is None:
            RT.oblige("count is an integer", False, "%r" % (count,))
            return
        K = PL.nrm(K)
        RT.oblige("count >= 0", PL.ge0(K), K.key)
        k0 = K.const() == 0
        for name, got, s, c in (("A", A, self.a, 0), ("B", B, self.b, 1)):
            shape_eq("shape of " + name, got, [s, s])
            RT.oblige(name + " has the kind of the data", getattr(got, "kind", None) == self.kind, str(getattr(got, "kind", None)))
            i, j = toP(fresh(s, "q")), toP(fresh(s, "q"))
            g = got.at([i, j])
            oks = any(rt.prove_eq(g, self.iterate(K, u)[c].at(i, j)) for u in ((False,) if k0 else (False, True)))
            RT.oblige("%s is the K-th iterate (K = returned count)" % name, oks, "code: %s\nspec: %s (K = %s)" % (N.show(g, 900), N.show(self.iterate(K, False)[c].at(i, j), 900), K.key), "nf")
        if k0:
            RT.oblige("error is infinite when no iteration ran", rt.isinf(delta) and delta > 0, "%r" % (delta,))
            RT.oblige("stops at the limit", RT.proves(rt.cmp_nf(-nfof(itm), ">=")), "", "z3")
            return
        if rt.isinf(delta) or not isinstance(delta, (Sc, Arr)):
            RT.oblige("error is the relative change", False, "%r" % (delta,))
            return
        dv = nfof(delta if isinstance(delta, Sc) else delta.item())
        okd = any(rt.prove_eq(dv, self.change(self.iterate(K, u), self.it(K - 1))) for u in (False, True))
        RT.oblige("error is the largest relative Frobenius change of the last step", okd, "code: %s" % N.show(dv, 900), "nf")
        stop = rt.sb_or([rt.cmp_nf(nfof(tol) - dv, ">="), rt.cmp_nf(fromP(K) - nfof(itm), ">=")])
        RT.oblige("stops only when the rule holds", RT.proves_eq(stop), "facts: %s" % [f.key[:300] for f in RT.facts], "z3")


def register(L):
    C = check("C23")
    ST = L.module("robuststats.estimation.structured")
    for kd in ("complex", "float", "int"):
        for v in (False, True):
            @C.scenario("MM iteration, %s data%s" % (kd, ", progress bar" if v else ""))
            def _(kd=kd, v=v):
                n, a, b = dim("n"), dim("a"), dim("b")
                X = sym("X", [n, sint(P_(a) * P_(b))], kd)
                tol, itm = scal("tol"), pint("iter_max")
                MM(X, n, a, b, kd).run(lambda: ST.estimation_cov_kronecker_MM(X, a, b, tol=tol, iter_max=itm, **({"verbosity": True} if v else {})), tol, itm)

    for a1, b1 in ((1, None), (None, 1), (None, None)):
        @C.scenario("incompatible sizes, a %s, b %s" % (a1 or "any", b1 or "any"))
        def _(a1=a1, b1=b1):
            n, p = dim("n"), dim("p")
            a, b = a1 or dim("a"), b1 or dim("b")
            RT.assume(sint(P_(a) * P_(b)) == p, False)
            r = ST.estimation_cov_kronecker_MM(sym("X", [n, p], "complex"), a, b)
            RT.oblige("None for incompatible sizes", r is None, "%r" % (r,))

    if True:
        for store in (True, False):
            @C.scenario("fit, store_precision=%s" % store)
            def _(store=store):
                n, a, b = dim("n", 2), dim("a"), dim("b")
                X = sym("X", [n, sint(P_(a) * P_(b))], "complex")
                A, B = msym("A", a, "hpd", False), msym("B", b, "hpd", False)
                tol, itm = scal("tol"), pint("iter_max")
                calls = []

                def contract(x, aa, bb, tol=None, iter_max=None, verbosity=False):
                    """contract of estimation_cov_kronecker_MM (proved in the scenarios above): the factors are named A, B"""
                    calls.append(1)
                    eq("the data", x, [n, sint(P_(a) * P_(b))], lambda t, i: X.at([t, i]))
                    RT.oblige("sizes", same(P_(aa), P_(a)) and same(P_(bb), P_(b)), "")
                    eq("tolerance", tol, [], lambda: nfof(T), "float")
                    eq("limit", iter_max, [], lambda: nfof(I))
                    return mat(A), mat(B), scal("err"), pint("count")
                T, I = tol, itm
                e = ST.KroneckerEllipticalMM(a, b, tol, itm, store_precision=store)
                real = ST.estimation_cov_kronecker_MM
                ST.estimation_cov_kronecker_MM = contract
                try:
                    r = e.fit(X)
                finally:
                    ST.estimation_cov_kronecker_MM = real
                RT.oblige("one estimation", len(calls) == 1, str(len(calls)))
                RT.oblige("fit returns the estimator", r is e, "")
                eq("A_", e.A_, [a, a], A.at)
                eq("B_", e.B_, [b, b], B.at)
                p = sint(P_(a) * P_(b))
                eq("covariance_ = A_ kron B_", e.covariance_, [p, p], kron(A, B).at)
