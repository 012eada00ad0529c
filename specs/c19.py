from rsv.spec import *
from specs.c16 import asc


def register(L):
    C = check("C19")
    m = L.module("robuststats.models.manifolds")
    for mode in ("k vectors", "one vector"):
        def setup(mode=mode):
            n = dim("n")
            k = dim("k") if mode == "k vectors" else 1
            man = m.StrictlyPositiveVectors(n, k) if mode == "k vectors" else m.StrictlyPositiveVectors(n)
            x, y = sym("x", [n, k], pos=True), sym("y", [n, k], pos=True)
            u, v = sym("u", [n, k]), sym("v", [n, k])
            return n, k, man, x, y, u, v
        e = lambda a: (lambda i, j: a.at([i, j]))

        @C.scenario("metric, %s" % mode)
        def _(setup=setup):
            n, k, man, x, y, u, v = setup()
            X, U, V = e(x), e(u), e(v)
            eq("inner", man.inner(x, u, v), [1, k], lambda z, j: S(n, lambda i: mul(npow(X(i, j), -2), mul(U(i, j), V(i, j)))))
            nn = man.norm(x, u)
            shape_eq("norm", nn, [1, k])
            eq("norm^2 = inner(u, u)", nn ** 2, man.inner(x, u, u))
            eq("norm", nn, [1, k], lambda z, j: npow(S(n, lambda i: mul(npow(X(i, j), -2), npow(U(i, j), 2))), half))
            eq("dim", man.dim, [], lambda: fromP(P_(n) * P_(k)))
            eq("zerovec", man.zerovec(x), [n, k], lambda i, j: const(0), "float")

        @C.scenario("gradient and Hessian, %s" % mode)
        def _(setup=setup):
            n, k, man, x, y, u, v = setup()
            g, h = sym("g", [n, k]), sym("h", [n, k])
            X, U, G, Hh = e(x), e(u), e(g), e(h)
            r = man.egrad2rgrad(x, g)
            eq("x^2 g", r, [n, k], lambda i, j: mul(npow(X(i, j), 2), G(i, j)))
            eq("inner(x, rgrad, u) = sum g u", man.inner(x, r, u), [1, k], lambda z, j: S(n, lambda i: mul(G(i, j), U(i, j))))
            eq("Hessian", man.ehess2rhess(x, g, h, u), [n, k], lambda i, j: mul(npow(X(i, j), 2), Hh(i, j)) + mul(X(i, j), mul(G(i, j), U(i, j))))
            eq("proj", man.proj(x, u), [n, k], U)

        @C.scenario("exponential and logarithm, %s" % mode)
        def _(setup=setup):
            n, k, man, x, y, u, v = setup()
            X, U, Y = e(x), e(u), e(y)
            w = man.exp(x, u)
            eq("x exp(u/x)", w, [n, k], lambda i, j: mul(X(i, j), N.mk_exp(mul(npow(X(i, j), -1), U(i, j)))))
            i, j = toP(fresh(P_(n), "i")), toP(fresh(P_(k), "j"))
            RT.oblige("exp is positive", N.ispos(w.at([i, j])), N.show(w.at([i, j])))
            eq("log(x, exp(x, u)) = u", man.log(x, w), u)
            l = man.log(x, y)
            eq("x log(y/x)", l, [n, k], lambda i, j: mul(X(i, j), N.mk_log(mul(npow(X(i, j), -1), Y(i, j)))))
            eq("exp(x, log(x, y)) = y", man.exp(x, l), y)

        @C.scenario("distance, %s" % mode)
        def _(setup=setup):
            n, k, man, x, y, u, v = setup()
            X, Y = e(x), e(y)
            d = man.dist(x, y)
            lg = lambda i, j: N.mk_log(mul(npow(X(i, j), -1), Y(i, j)))
            eq("sqrt(sum log(y/x)^2)", d, [1, k], lambda z, j: npow(S(n, lambda i: npow(lg(i, j), 2)), half))
            eq("dist = norm(x, log(x, y))", d, man.norm(x, man.log(x, y)))
            eq("symmetric", d, man.dist(y, x))
            eq("dist(x, x) = 0", man.dist(x, x), [1, k], lambda z, j: const(0))

        @C.scenario("retraction and transport, %s" % mode)
        def _(setup=setup):
            n, k, man, x, y, u, v = setup()
            X, Y, U = e(x), e(y), e(u)
            eq("x + u + u^2/(2x)", man.retr(x, u), [n, k], lambda i, j: X(i, j) + U(i, j) + mul(half, mul(npow(U(i, j), 2), npow(X(i, j), -1))))
            t = man.transp(x, y, u)
            eq("scales by y/x", t, [n, k], lambda i, j: mul(U(i, j), mul(Y(i, j), npow(X(i, j), -1))))
            eq("isometry", man.inner(y, t, man.transp(x, y, v)), man.inner(x, u, v))

        @C.scenario("random tangent vectors and points, %s" % mode)
        def _(setup=setup):
            n, k, man, x, y, u, v = setup()
            r = man.randvec(x)
            shape_eq("shape", r, [n, k])
            normalisers_positive(r)
            eq("unit norm per vector", man.norm(x, r), [1, k], lambda z, j: const(1))
            p = man.rand()
            shape_eq("rand", p, [n, k])
            i, j = toP(fresh(P_(n), "i")), toP(fresh(P_(k), "j"))
            RT.oblige("random points are positive", N.ispos(p.at([i, j])), N.show(p.at([i, j])))
