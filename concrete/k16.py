from man import *


@case("C16", 120)
def metric(rng):
    n, k = size(rng)
    man = MA.HermitianPositiveDefinite(n, k)
    x = pd(rng, n, k)
    u, v = tang(rng, n, k, x), tang(rng, n, k, x)
    ro = RO(x, u, v)
    nu, nv = np.sqrt(inner(x, u, u)), np.sqrt(inner(x, v, v))
    r = man.inner(x, u, v)
    ok(np.isrealobj(r) and np.ndim(r) == 0, "inner is a real scalar")
    close(r, inner(x, u, v), "inner", rtol=0, atol=1e-8 * nu * nv, n=n, k=k)
    close(man.inner(x, v, u), r, "inner symmetric", rtol=0, atol=1e-8 * nu * nv)
    close(man.norm(x, u), nu, "norm", rtol=1e-8, n=n, k=k)
    c = float(rng.uniform(.1, 20))
    close(man.norm(x, -c * u), c * nu, "norm homogeneous", rtol=1e-8)
    close(man.norm(x, np.zeros_like(u)), 0, "norm of zero", rtol=0, atol=1e-300)
    close(man.dim, k * n * n, "dimension", rtol=0)
    ro.check()


@case("C16", 120)
def gradient(rng):
    n, k = size(rng)
    man = MA.HermitianPositiveDefinite(n, k)
    x = pd(rng, n, k)
    u, g, h = tang(rng, n, k, x), gen(rng, n, k), gen(rng, n, k)
    ro = RO(x, u, g, h)
    rg = man.egrad2rgrad(x, g)
    s = np.abs(x).max() ** 2 * np.abs(g).max() * n * n
    close(rg, mapk(lambda a, b: a @ herm(b) @ a, x, g), "egrad2rgrad", rtol=0, atol=1e-11 * s)
    w = pair(g, u)
    close(inner(x, rg, u), w, "egrad2rgrad is the gradient", rtol=0, atol=1e-7 * la.norm(g) * la.norm(u))
    close(man.inner(x, rg, u), w, "inner(x, egrad2rgrad(x,g), u)", rtol=0, atol=1e-7 * la.norm(g) * la.norm(u))
    z = man.ehess2rhess(x, g, h, u)
    s2 = s * 3 + np.abs(x).max() ** 2 * np.abs(h).max() * n * n
    close(z, mapk(lambda a, b, c, d: a @ herm(c) @ a + herm(d @ herm(b) @ a), x, g, h, u), "ehess2rhess", rtol=0, atol=1e-10 * s2)
    close(man.proj(x, g), mapk(herm, g), "proj", rtol=1e-13)
    z0 = man.zerovec(x)
    exact(z0, np.zeros(x.shape), "zerovec")
    ok(np.iscomplexobj(z0), "zerovec is complex")
    ro.check()


@case("C16", 80)
def random_tangent(rng):
    n, k = size(rng)
    man = MA.HermitianPositiveDefinite(n, k) if k > 1 or rng.integers(2) else MA.HermitianPositiveDefinite(n)
    x = pd(rng, n, k)
    ro = RO(x)
    for _ in range(2):
        u = man.randvec(x)
        ok(u.shape == x.shape and np.iscomplexobj(u), "shape of randvec", got=u.shape, want=x.shape)
        close(u, H(u), "randvec Hermitian", rtol=1e-12)
        close(np.sqrt(inner(x, u, u)), 1, "randvec unit norm", rtol=1e-7)
        close(man.norm(x, u), 1, "randvec unit norm", rtol=1e-7)
    p = man.rand()
    ok(p.shape == x.shape and np.allclose(p, H(p)) and la.eigvalsh(p).min() > 0, "rand is positive definite of the manifold shape", got=p.shape)
    ro.check()
