from man import *


def dets(x):
    return np.real(la.det(each(x, x.shape[-1])))


@case("C18", 100)
def determinants(rng):
    n, k = size(rng)
    man, amb = MA.SpecialHermitianPositiveDefinite(n, k), MA.HermitianPositiveDefinite(n, k)
    x = unitdet(pd(rng, n, k))
    u = tang(rng, n, k, x)
    u = man.proj(x, u * float(rng.uniform(.1, 2) / np.sqrt(inner(x, u, u))))
    ro = RO(x, u)
    for nm in ("exp", "retr"):
        r = getattr(man, nm)(x, u)
        close(dets(r), np.ones(k), nm + " has determinant one", rtol=1e-7)
        close(r, unitdet(getattr(amb, nm)(x, u)), nm + " is the normalised ambient one", rtol=1e-7)
        close(r, H(r), nm + " Hermitian", rtol=1e-9)
    # arbitrary Hermitian direction: still on the manifold
    w = tang(rng, n, k, x)
    w = w * float(rng.uniform(.1, 1.2) / np.sqrt(inner(x, w, w)))
    close(dets(man.exp(x, w)), np.ones(k), "exp has determinant one", rtol=1e-7)
    close(man.exp(x, w), unitdet(amb.exp(x, w)), "exp is the normalised ambient one", rtol=1e-7)
    close(man.retr(x, w), unitdet(amb.retr(x, w)), "retr is the normalised ambient one", rtol=1e-7)
    p = man.rand()
    ok(p.shape == x.shape and np.allclose(p, H(p)) and la.eigvalsh(p).min() > 0, "rand positive definite")
    close(dets(p), np.ones(k), "rand has determinant one", rtol=1e-8)
    close(man.dim, k * (n * n - 1), "dimension", rtol=0)
    ro.check()


@case("C18", 120)
def tangents(rng):
    n, k = size(rng)
    man, amb = MA.SpecialHermitianPositiveDefinite(n, k), MA.HermitianPositiveDefinite(n, k)
    x, y = unitdet(pd(rng, n, k)), unitdet(pd(rng, n, k))
    if rng.integers(3) == 0:
        x = pd(rng, n, k)         # proj and the metric do not need determinant one
    a, g, z = gen(rng, n, k), tang(rng, n, k), tang(rng, n, k, x)
    ro = RO(x, y, a, g, z)

    def tl(nm, x, t, sc):
        close(t, H(t), nm + " Hermitian", rtol=0, atol=1e-9 * sc)
        for b, c in zip(each(x, n), each(t, n)):
            m = la.inv(b) @ c
            close(np.trace(m), 0, nm + " is traceless", rtol=0, atol=1e-8 * (np.abs(la.inv(b)).max() * sc * n * n + 1e-30))
    p = man.proj(x, a)
    kx, ky = la.cond(each(x, n)).max(), la.cond(each(y, n)).max()
    tl("proj", x, p, np.abs(a).max() * kx)
    close(p, mapk(lambda b, c: herm(c) - np.real(np.trace(la.inv(b) @ herm(c))) / n * b, x, a), "proj", rtol=0, atol=1e-9 * np.abs(a).max() * n * la.cond(each(x, n)).max())
    close(man.proj(x, p), p, "proj leaves tangents unchanged", rtol=0, atol=1e-9 * np.abs(a).max() * n * la.cond(each(x, n)).max())
    r = man.egrad2rgrad(x, g)
    tl("egrad2rgrad", x, r, np.abs(g).max() * np.abs(x).max() ** 2 * kx * n * n)
    u = man.proj(x, z)
    s = la.norm(g) * la.norm(z) * la.cond(each(x, n)).max()
    close(man.inner(x, r, u), pair(g, u), "egrad2rgrad is the gradient", rtol=0, atol=1e-9 * s * n)
    t = man.transp(x, y, u)
    tl("transp", y, t, np.abs(z).max() * kx * ky * n * n)
    close(t, man.proj(y, amb.transp(x, y, u)), "transp is the projected ambient transport", rtol=0, atol=1e-9 * max(np.abs(t).max(), np.abs(z).max() * la.cond(each(x, n)).max() * la.cond(each(y, n)).max()))
    v = man.randvec(x)
    ok(v.shape == x.shape, "shape of randvec")
    if n > 1:
        tl("randvec", x, v, np.abs(v).max() * kx)
        close(np.sqrt(inner(x, v, v)), 1, "randvec unit norm", rtol=1e-7)
    for nm, q in (("inner", (x, u, z)), ("norm", (x, u)), ("log", (x, y)), ("dist", (x, y))):
        close(getattr(man, nm)(*q), getattr(amb, nm)(*q), nm + " is the ambient one", rtol=1e-12)
    exact(man.zerovec(x), np.zeros(x.shape), "zerovec")
    ro.check()
