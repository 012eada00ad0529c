from rsv.spec import *
from specs.c16 import batch_mats, entries, over, symof, trprod, multih, asc


half_ = F(1, 2)


def register(L):
    C = check("C18")
    m = L.module("robuststats.models.manifolds")
    for batch in (False, True):
        nm = "k matrices" if batch else "one matrix"

        def setup(batch=batch):
            n = dim("n")
            k = dim("k", 2) if batch else None
            man = m.SpecialHermitianPositiveDefinite(n, k) if batch else m.SpecialHermitianPositiveDefinite(n)
            amb = m.HermitianPositiveDefinite(n, k) if batch else m.HermitianPositiveDefinite(n)
            return n, k, man, amb, batch_mats("x", k, n, "hpd"), symof("x", n, "hpd", False, k)
        sh = lambda n, k: [k, n, n] if k is not None else [n, n]
        br = lambda k, f: (lambda b, i, j: f(b)(i, j)) if k is not None else (lambda i, j: f(None)(i, j))

        def traceless(nm, n, k, X, t):
            """Hermitian with tr(x^-1 t) = 0 for every matrix of the batch"""
            eq(nm + " Hermitian", t, multih(t))
            T = entries(t, k)
            b = toP(fresh(P_(k), "b")) if k is not None else None
            RT.oblige_eq(nm + " traceless", trprod(n, inv(X(b)), T(b)), const(0))

        def unit_det(nm, n, k, t):
            T = entries(t, k)
            b = toP(fresh(P_(k), "b")) if k is not None else None
            RT.oblige_eq(nm + " has determinant one", N.mk_det(Mat(T(b), n)), const(1))

        def scaled(n, a, k):
            """a divided by the n-th root of its determinant"""
            A = entries(a, k)
            e = N.enorm(N.mul(const(-1), npow(fromP(P_(n)), -1)))
            return br(k, lambda b: (lambda i, j: N.mul(npow(N.mk_det(Mat(A(b), n)), e), A(b)(i, j))))

        @C.scenario("projection, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            a = sym("a", sh(n, k), "complex")
            p = man.proj(x, a)
            shape_eq("shape", p, sh(n, k))
            traceless("proj", n, k, X, p)
            A, xx = entries(a, k), entries(x, k)
            h = lambda b: (lambda i, j: N.mul(half, A(b)(i, j) + conj(A(b)(j, i))))
            tr = lambda b: N.mul(npow(fromP(P_(n)), -1), trprod(n, inv(X(b)), h(b)))
            eq("herm(a) - tr(x^-1 herm(a)) x / n", p, sh(n, k), br(k, lambda b: (lambda i, j: h(b)(i, j) - N.mul(tr(b), xx(b)(i, j)))))
            eq("leaves tangent vectors unchanged", man.proj(x, p), p)

        @C.scenario("gradient, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            g, z = batch_mats("g", k, n, "herm"), batch_mats("z", k, n, "herm")
            u = man.proj(x, z)
            r = man.egrad2rgrad(x, g)
            traceless("egrad2rgrad", n, k, X, r)
            G, U = entries(g, k), entries(u, k)
            want = over(k, lambda b: S(n, lambda i: S(n, lambda j: N.mul(conj(G(b)(i, j)), U(b)(i, j)))))
            eq("inner(x, rgrad, u) = Re tr(g^H u) for tangent u", man.inner(x, r, u), [], lambda: N.re(want))

        @C.scenario("transport, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            y, u = batch_mats("y", k, n, "hpd"), batch_mats("u", k, n, "herm")
            t = man.transp(x, y, u)
            traceless("transp", n, k, symof("y", n, "hpd", False, k), t)
            eq("projected ambient transport", t, man.proj(y, amb.transp(x, y, u)))

        @C.scenario("exponential, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            u = batch_mats("u", k, n, "herm")
            e = man.exp(x, u)
            shape_eq("shape", e, sh(n, k))
            unit_det("exp", n, k, e)
            eq("ambient exp over the n-th root of its determinant", e, sh(n, k), scaled(n, amb.exp(x, u), k))
            eq("Hermitian", e, multih(e))

        @C.scenario("retraction, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            u = batch_mats("u", k, n, "herm")
            U, xx = entries(u, k), entries(x, k)

            def second(b):
                q = mm(n, U(b), inv(X(b)), U(b))
                return lambda i, j: xx(b)(i, j) + U(b)(i, j) + N.mul(half, q(i, j))

            def parts(b):
                # I + x^-1 u
                xu = mm(n, inv(X(b)), U(b))
                return [(half_, X(b), None), (half_, X(b), lambda i, j: delta(i, j) + xu(i, j))]
            lemma_pd("x + u + u x^-1 u / 2 is positive definite", second if k is not None else second(None), n, parts if k is not None else parts(None), k)
            r = man.retr(x, u)
            unit_det("retr", n, k, r)
            eq("ambient retr over the n-th root of its determinant", r, sh(n, k), scaled(n, amb.retr(x, u), k))

        @C.scenario("random points, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            r = man.rand()
            shape_eq("shape", r, sh(n, k))
            eq("Hermitian", r, multih(r))
            unit_det("rand", n, k, r)

        @C.scenario("random tangent vectors, zero, dimension, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            r = man.randvec(x)
            shape_eq("shape", r, sh(n, k))
            normalisers_positive(r)
            traceless("randvec", n, k, X, r)
            eq("unit norm", man.norm(x, r), [], lambda: const(1))
            eq("zerovec", man.zerovec(x), sh(n, k), lambda *ix: const(0), "complex")
            K = P_(k) if k is not None else toP(1)
            eq("dim = k (n^2 - 1)", man.dim, [], lambda: fromP(K * (P_(n) * P_(n) - 1)))

        @C.scenario("metric, logarithm and distance are the ambient ones, %s" % nm)
        def _(setup=setup):
            n, k, man, amb, x, X = setup()
            y, u, v = batch_mats("y", k, n, "hpd"), batch_mats("u", k, n, "herm"), batch_mats("v", k, n, "herm")
            eq("inner", man.inner(x, u, v), [], lambda: nfof(asc(amb.inner(x, u, v))))
            eq("norm", man.norm(x, u), [], lambda: nfof(asc(amb.norm(x, u))))
            eq("log", man.log(x, y), amb.log(x, y))
            eq("dist", man.dist(x, y), [], lambda: nfof(asc(amb.dist(x, y))))
