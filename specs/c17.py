from rsv.spec import *
from specs.c16 import batch_mats, entries, over, symof, trprod, multih, asc


def register(L):
    C = check("C17")
    m = L.module("robuststats.models.manifolds")
    for batch in (False, True):
        nm = "k matrices" if batch else "one matrix"

        def setup(batch=batch):
            n = dim("n")
            k = dim("k", 2) if batch else None
            man = m.HermitianPositiveDefinite(n, k) if batch else m.HermitianPositiveDefinite(n)
            return n, k, man, batch_mats("x", k, n, "hpd"), symof("x", n, "hpd", False, k)
        sh = lambda n, k: [k, n, n] if k is not None else [n, n]
        br = lambda k, f: (lambda b, i, j: f(b)(i, j)) if k is not None else (lambda i, j: f(None)(i, j))

        def conj_fun(g, n, X, U):
            """x^1/2 g(x^-1/2 u x^-1/2) x^1/2"""
            s, r = powm(X, half), powm(X, -half)
            M = Mat(mm(n, r, U, r), n)
            M = N.as_herm(M) if hasattr(N, "as_herm") else M
            return mm(n, s, fun(g, M), s)

        @C.scenario("exponential: value, Hermitian, inverse of log, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            u = batch_mats("u", k, n, "herm")
            e = man.exp(x, u)
            shape_eq("shape", e, sh(n, k))
            eq("x^1/2 exp(x^-1/2 u x^-1/2) x^1/2", e, sh(n, k), br(k, lambda b: conj_fun(N.mk_exp(N.LAM), n, X(b), entries(u, k)(b))))
            eq("Hermitian", e, multih(e))
            eq("log(x, exp(x, u)) = u", man.log(x, e), u)

        @C.scenario("logarithm: value, Hermitian, inverse of exp, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            y = batch_mats("y", k, n, "hpd")
            l = man.log(x, y)
            eq("x^1/2 log(x^-1/2 y x^-1/2) x^1/2", l, sh(n, k), br(k, lambda b: conj_fun(N.mk_log(N.LAM), n, X(b), entries(y, k)(b))))
            eq("Hermitian", l, multih(l))
            eq("exp(x, log(x, y)) = y", man.exp(x, l), y)

        @C.scenario("distance, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            y = batch_mats("y", k, n, "hpd")
            d = man.dist(x, y)
            shape_eq("scalar", d, [])
            eq("dist^2 = norm(x, log(x, y))^2", asc(d) ** 2, [], lambda: nfof(asc(man.norm(x, man.log(x, y))) ** 2))
            eq("dist(x, y) = dist(y, x)", asc(d) ** 2, [], lambda: nfof(asc(man.dist(y, x)) ** 2))
            eq("dist(x, x) = 0", man.dist(x, x), [], lambda: const(0))

        @C.scenario("retraction, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            u = batch_mats("u", k, n, "herm")
            U, xx = entries(u, k), entries(x, k)
            eq("x + u + u x^-1 u / 2", man.retr(x, u), sh(n, k), br(k, lambda b: (lambda i, j: xx(b)(i, j) + U(b)(i, j) + N.mul(half, mm(n, U(b), inv(X(b)), U(b))(i, j)))))

        @C.scenario("transport, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            y = batch_mats("y", k, n, "hpd")
            u, v = batch_mats("u", k, n, "herm"), batch_mats("v", k, n, "herm")
            t, w = man.transp(x, y, u), man.transp(x, y, v)
            shape_eq("shape", t, sh(n, k))
            U, Y = entries(u, k), entries(y, k)

            def tr(b):
                r = powm(X(b), -half)
                R = Mat(mm(n, r, Y(b), r), n)
                E = mm(n, powm(X(b), half), fun(npow(N.LAM, half), R), r)
                return mm(n, E, U(b), H(E))
            eq("E u E^H with E the square root of y x^-1", t, sh(n, k), br(k, tr))
            eq("Hermitian", t, multih(t))
            eq("isometry", man.inner(y, t, w), [], lambda: nfof(asc(man.inner(x, u, v))))
            eq("transport to the same point", man.transp(x, x, u), u)
