from rsv.spec import *


def batch_mats(nm, k, n, kind, real=False):
    """a point / tangent vector of the manifold with k matrices (k None: single matrix)"""
    return mat(msym(nm, n, kind, real), batch=k) if k is not None else mat(msym(nm, n, kind, real))


def entries(a, k):
    """matrix of index b (None for a single matrix) as entry function"""
    return (lambda b: (lambda i, j: a.at([b, i, j]))) if k is not None else (lambda b: (lambda i, j: a.at([i, j])))


def over(k, f):
    """sum over the batch"""
    return S(k, f) if k is not None else f(None)


def symof(nm, n, kind, real, k):
    return lambda b: N.MSym(nm, P_(n), (b,) if k is not None else (), kind, real)


def trprod(n, *fs):
    r = fs[0]
    m_ = mm(n, *fs)
    return S(n, lambda i: m_(i, i))


def register(L):
    C = check("C16")
    m = L.module("robuststats.models.manifolds")
    for batch in (False, True):
        nm = "k matrices" if batch else "one matrix"

        def setup(batch=batch):
            n = dim("n")
            k = dim("k", 2) if batch else None
            man = m.HermitianPositiveDefinite(n, k) if batch else m.HermitianPositiveDefinite(n)
            x = batch_mats("x", k, n, "hpd")
            X = symof("x", n, "hpd", False, k)
            return n, k, man, x, X
        sh = lambda n, k: [k, n, n] if k is not None else [n, n]

        @C.scenario("inner and norm, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            u, v = batch_mats("u", k, n, "herm"), batch_mats("v", k, n, "herm")
            U, V = entries(u, k), entries(v, k)
            want = over(k, lambda b: trprod(n, inv(X(b)), U(b), inv(X(b)), V(b)))
            r = man.inner(x, u, v)
            eq("Re tr(x^-1 u x^-1 v)", r, [], lambda: N.re(want), "float")
            eq("symmetric", man.inner(x, v, u), [], lambda: N.re(want))
            nn = man.norm(x, u)
            eq("norm^2 = inner(u, u)", nn ** 2, [], lambda: nfof(asc(man.inner(x, u, u))))

        @C.scenario("Riemannian gradient, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            g = sym("g", sh(n, k), "complex")
            u = batch_mats("u", k, n, "herm")
            U, G = entries(u, k), entries(g, k)
            r = man.egrad2rgrad(x, g)
            hg = lambda b: (lambda i, j: N.mul(half, G(b)(i, j) + conj(G(b)(j, i))))
            xx = entries(x, k)
            eq("x herm(g) x", r, sh(n, k), (lambda b, i, j: mm(n, xx(b), hg(b), xx(b))(i, j)) if k is not None else (lambda i, j: mm(n, xx(None), hg(None), xx(None))(i, j)))
            eq("Hermitian", r, multih(r))
            want = over(k, lambda b: S(n, lambda i: S(n, lambda j: N.mul(conj(G(b)(i, j)), U(b)(i, j)))))
            eq("inner(x, rgrad, u) = Re tr(g^H u)", man.inner(x, r, u), [], lambda: N.re(want))

        @C.scenario("Hessian, projection, zero, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            g, h = sym("g", sh(n, k), "complex"), sym("h", sh(n, k), "complex")
            u = batch_mats("u", k, n, "herm")
            U, G, Hh, xx = entries(u, k), entries(g, k), entries(h, k), entries(x, k)
            hm = lambda e: (lambda i, j: N.mul(half, e(i, j) + conj(e(j, i))))

            def w(b):
                a = mm(n, xx(b), hm(Hh(b)), xx(b))
                c = hm(mm(n, U(b), hm(G(b)), xx(b)))
                return lambda i, j: a(i, j) + c(i, j)
            eq("x herm(h) x + herm(u herm(g) x)", man.ehess2rhess(x, g, h, u), sh(n, k), (lambda b, i, j: w(b)(i, j)) if k is not None else (lambda i, j: w(None)(i, j)))
            eq("proj is the Hermitian part", man.proj(x, g), sh(n, k), (lambda b, i, j: hm(G(b))(i, j)) if k is not None else (lambda i, j: hm(G(None))(i, j)))
            eq("zerovec", man.zerovec(x), sh(n, k), lambda *ix: const(0), "complex")

        @C.scenario("random tangent vector and dimension, %s" % nm)
        def _(setup=setup):
            n, k, man, x, X = setup()
            r = man.randvec(x)
            shape_eq("shape", r, sh(n, k))
            eq("Hermitian", r, multih(r))
            normalisers_positive(r)
            eq("unit norm", man.norm(x, r), [], lambda: const(1))
            K = P_(k) if k is not None else toP(1)
            eq("dim = k n^2", man.dim, [], lambda: fromP(K * P_(n) * P_(n)))

    @C.scenario("k = 1 given explicitly is the single-matrix manifold")
    def _():
        n = dim("n")
        man = m.HermitianPositiveDefinite(n, 1)
        x = hpd("x", n)
        u = herm("u", n)
        eq("dim", man.dim, [], lambda: fromP(P_(n) * P_(n)))
        eq("zerovec", man.zerovec(x), [n, n], lambda i, j: const(0), "complex")
        r = man.randvec(x)
        normalisers_positive(r)
        eq("unit norm", man.norm(x, r), [], lambda: const(1))
        shape_eq("randvec", r, [n, n])


def asc(v):
    return v if isinstance(v, Sc) else (v.item() if isinstance(v, Arr) else v)


def multih(a):
    return np.conjugate(np.swapaxes(a, -1, -2))
