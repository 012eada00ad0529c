from h import *
from robuststats.models import manifolds as MA


def vec(rng, n, k):
    return layout(rng, np.exp(rng.standard_normal((n, k)) * rng.uniform(.2, 1.5)) * pick(rng, [1, 1, 1e-2, 50, 1e-9, 1e-14, 1e7]))


@case("C19", 200)
def positive_vectors(rng):
    n, k = int(pick(rng, [1, 2, 3, 5, 9])), int(pick(rng, [1, 1, 2, 3, 5]))
    man = MA.StrictlyPositiveVectors(n, k) if k > 1 or rng.integers(2) else MA.StrictlyPositiveVectors(n)
    x, y = vec(rng, n, k), vec(rng, n, k)
    u, v, g = layout(rng, randn(rng, n, k) * x * rng.uniform(.1, 2)), layout(rng, randn(rng, n, k) * x), layout(rng, randn(rng, n, k))
    ro = RO(x, y, u, v, g)
    nu = np.sqrt(np.sum((u / x) ** 2, 0, keepdims=True))
    nv = np.sqrt(np.sum((v / x) ** 2, 0, keepdims=True))
    r = man.inner(x, u, v)
    ok(r.shape == (1, k), "shape of inner", got=r.shape)
    close(r, np.sum(u * v / x ** 2, 0, keepdims=True), "inner", rtol=0, atol=1e-10 * (nu * nv).max())
    close(man.norm(x, u), nu, "norm", rtol=1e-10)
    rg = man.egrad2rgrad(x, g)
    close(rg / x ** 2, g, "egrad2rgrad", rtol=1e-10)
    close(man.inner(x, rg, u), np.sum(g * u, 0, keepdims=True), "egrad2rgrad is the gradient", rtol=0, atol=1e-9 * (np.abs(g * u).sum() + 1e-30))
    e = man.exp(x, u)
    ok(np.all(e > 0), "exp positive")
    close(np.log(e / x), u / x, "exp", rtol=1e-9)
    close(man.log(x, e) / x, u / x, "log(x, exp(x,u)) = u", rtol=1e-8)
    l = man.log(x, y)
    close(l / x, np.log(y / x), "log", rtol=1e-9, atol=1e-12)
    close(man.exp(x, l) / y, np.ones((n, k)), "exp(x, log(x,y)) = y", rtol=1e-8)
    d = man.dist(x, y)
    close(d, np.sqrt(np.sum(np.log(y / x) ** 2, 0, keepdims=True)), "dist", rtol=1e-9)
    close(man.norm(x, l), d, "dist = norm of log", rtol=1e-9)
    close(man.dist(y, x), d, "dist symmetric", rtol=1e-12)
    close(man.dist(x, x), np.zeros((1, k)), "dist(x,x)", rtol=0, atol=1e-13)
    close(man.retr(x, u) / x, 1 + u / x + (u / x) ** 2 / 2, "retr", rtol=1e-10)
    t = man.transp(x, y, u)
    close(t / y, u / x, "transport scales by y/x", rtol=1e-10)
    close(man.inner(y, t, man.transp(x, y, v)), r, "transport is an isometry", rtol=0, atol=1e-9 * (nu * nv).max())
    w = man.randvec(x)
    ok(w.shape == (n, k), "shape of randvec")
    close(np.sqrt(np.sum((w / x) ** 2, 0)), np.ones(k), "randvec unit norm per vector", rtol=1e-9)
    p = man.rand()
    ok(p.shape == (n, k) and np.all(p > 0), "rand positive")
    exact(man.zerovec(x), np.zeros((n, k)), "zerovec")
    exact(man.proj(x, u), u, "proj")
    h_ = layout(rng, randn(rng, n, k))
    close(man.ehess2rhess(x, g, h_, u), h_ * x ** 2 + g * u * x, "ehess2rhess", rtol=1e-10)
    for i in range(k):
        one = MA.StrictlyPositiveVectors(n)
        s = slice(i, i + 1)
        close(d[:, s], one.dist(x[:, s], y[:, s]), "each vector separately: dist", rtol=1e-11)
        close(e[:, s], one.exp(x[:, s], u[:, s]), "each vector separately: exp", rtol=1e-11)
    ro.check()
