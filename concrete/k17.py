from man import *


@case("C17", 120)
def exp_log(rng):
    n, k = size(rng)
    man = MA.HermitianPositiveDefinite(n, k)
    x = pd(rng, n, k)
    y = pd(rng, n, k) * (1 if rng.integers(2) else np.abs(x).max())
    u = tang(rng, n, k, x)
    u = u * float(rng.uniform(.1, 2.5) / np.sqrt(inner(x, u, u)))
    ro = RO(x, y, u)
    e = man.exp(x, u)
    close(e, mapk(expm1, x, u), "exp", rtol=1e-8)
    close(e, H(e), "exp Hermitian", rtol=1e-12)
    ok(la.eigvalsh(e).min() > 0, "exp positive definite")
    close(man.log(x, e), u, "log(x, exp(x,u)) = u", rtol=1e-6)
    l = man.log(x, y)
    close(l, mapk(logm1, x, y), "log", rtol=1e-7)
    close(l, H(l), "log Hermitian", rtol=1e-12)
    close(man.exp(x, l), y, "exp(x, log(x,y)) = y", rtol=1e-6)
    d = np.sqrt(dist2(x, y))
    close(man.dist(x, y), d, "dist", rtol=1e-7)
    close(man.norm(x, l), d, "dist = norm of log", rtol=1e-7)
    close(man.dist(x, x), 0, "dist(x,x)", rtol=0, atol=1e-6)
    close(man.dist(y, x), d, "dist symmetric", rtol=1e-7)
    ro.check()


@case("C17", 120)
def retraction_transport(rng):
    n, k = size(rng)
    man = MA.HermitianPositiveDefinite(n, k)
    x, y = pd(rng, n, k), pd(rng, n, k)
    u, v = tang(rng, n, k, x), tang(rng, n, k, x)
    ro = RO(x, y, u, v)
    close(man.retr(x, u), mapk(lambda a, b: a + b + b @ la.inv(a) @ b / 2, x, u), "retr", rtol=1e-9)

    def tr(a, b, c):
        s, i = sq(a)
        E = s @ spec(herm(i @ b @ i), np.sqrt) @ i
        return E @ c @ E.conj().T
    t = man.transp(x, y, u)
    close(t, mapk(tr, x, y, u), "transp", rtol=1e-6)
    close(t, H(t), "transp Hermitian", rtol=1e-9)
    w = man.transp(x, y, v)
    nu, nv = np.sqrt(inner(x, u, u)), np.sqrt(inner(x, v, v))
    close(inner(y, t, w), inner(x, u, v), "transport is an isometry", rtol=0, atol=1e-6 * nu * nv)
    close(man.transp(x, x, u), u, "transport to the same point", rtol=1e-6)
    ro.check()


@case("C17", 60)
def batch_is_each(rng):
    n, k = int(rng.integers(1, 5)), int(rng.integers(2, 5))
    man, one = MA.HermitianPositiveDefinite(n, k), MA.HermitianPositiveDefinite(n)
    x, y, u = pd(rng, n, k), pd(rng, n, k), None
    u = tang(rng, n, k, x)
    u = u / np.sqrt(inner(x, u, u))
    for f, a in (("exp", (x, u)), ("log", (x, y)), ("retr", (x, u)), ("transp", (x, y, u)), ("egrad2rgrad", (x, u)), ("proj", (x, u))):
        b = getattr(man, f)(*a)
        ok(b.shape == (k, n, n), "shape of batched %s" % f)
        for i in range(k):
            close(b[i], getattr(one, f)(*[t[i] for t in a]), "batched %s acts on each matrix" % f, rtol=1e-7)
    close(man.inner(x, u, y), sum(one.inner(x[i], u[i], y[i]) for i in range(k)), "batched inner", rtol=1e-8, atol=1e-8)
    close(man.dist(x, y) ** 2, sum(one.dist(x[i], y[i]) ** 2 for i in range(k)), "batched dist", rtol=1e-8)
