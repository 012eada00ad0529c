from man import *


def product(rng):
    m = int(rng.integers(1, 4))
    subs, x, y, u, v, g, h = [], [], [], [], [], [], []
    ws = [float(np.exp(rng.uniform(-2, 2))) for _ in range(m)]
    for _ in range(m):
        kind = int(rng.integers(3))
        n, k = int(rng.integers(2, 4)), int(pick(rng, [1, 1, 2]))
        if kind == 0:
            subs.append(MA.StrictlyPositiveVectors(n))
            a, b = np.exp(randn(rng, n, 1)), np.exp(randn(rng, n, 1))
            x.append(a); y.append(b); u.append(randn(rng, n, 1)); v.append(randn(rng, n, 1)); g.append(randn(rng, n, 1)); h.append(randn(rng, n, 1))
        else:
            sp = kind == 2
            subs.append(MA.SpecialHermitianPositiveDefinite(n, k) if sp else MA.HermitianPositiveDefinite(n, k))
            a, b = pd(rng, n, k, cond=5), pd(rng, n, k, cond=5)
            if sp:
                a, b = unitdet(a), unitdet(b)
            pr = (lambda t: subs[-1].proj(a, t)) if sp else (lambda t: t)
            x.append(a); y.append(b)
            u.append(pr(tang(rng, n, k))); v.append(pr(tang(rng, n, k)))
            g.append(tang(rng, n, k) if sp else gen(rng, n, k)); h.append(gen(rng, n, k))
    return subs, ws, x, y, u, v, g, h


@case("C20", 120)
def weighted_product(rng):
    subs, ws, x, y, u, v, g, h = product(rng)
    default = rng.integers(5) == 0
    wt = pick(rng, [tuple, list, np.array])(ws)
    man = MA.WeightedProduct(subs) if default else MA.WeightedProduct(subs, wt)
    if default:
        ws = [1.] * len(subs)
    ro = RO(*x, *y, *u, *v, *g)
    nu = [float(np.squeeze(s.norm(a, b))) for s, a, b in zip(subs, x, u)]
    nv = [float(np.squeeze(s.norm(a, b))) for s, a, b in zip(subs, x, v)]
    sc = sum(w * a * b for w, a, b in zip(ws, nu, nv))
    want = sum(w * float(np.squeeze(s.inner(a, b, c))) for w, s, a, b, c in zip(ws, subs, x, u, v))
    r = man.inner(x, u, v)
    ok(np.ndim(r) == 0 and np.isrealobj(r), "inner is a real scalar")
    close(r, want, "weighted inner product", rtol=0, atol=1e-9 * sc)
    close(man.norm(x, u), np.sqrt(sum(w * a * a for w, a in zip(ws, nu))), "norm", rtol=1e-8)
    close(man.dist(x, y), np.sqrt(sum(w * float(np.squeeze(s.dist(a, b))) ** 2 for w, s, a, b in zip(ws, subs, x, y))), "dist", rtol=1e-9)
    rg = man.egrad2rgrad(x, g)
    s2 = sum(la.norm(a) * la.norm(b) for a, b in zip(g, u)) * 100
    close(man.inner(x, rg, u), sum(pair(a, b) for a, b in zip(g, u)), "egrad2rgrad is the gradient", rtol=0, atol=1e-8 * s2)
    for k in range(len(subs)):
        close(rg[k], subs[k].egrad2rgrad(x[k], g[k]) / ws[k], "egrad2rgrad divides by the weight", rtol=1e-10)
    if all(hasattr(s, "ehess2rhess") and not isinstance(s, MA.SpecialHermitianPositiveDefinite) for s in subs):
        hs = man.ehess2rhess(x, g, h, u)
        for k in range(len(subs)):
            close(hs[k], subs[k].ehess2rhess(x[k], g[k], h[k], u[k]) / ws[k], "ehess2rhess divides by the weight", rtol=1e-10)
    t = man.randvec(x)
    close(sum(w * float(np.squeeze(s.inner(a, b, b))) for w, s, a, b in zip(ws, subs, x, t)), 1, "randvec unit norm", rtol=1e-7)
    ro.check()


@case("C20", 150)
def kronecker_elliptical(rng):
    a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    alpha = float(rng.uniform(.3, 1) if rng.integers(2) else rng.uniform(1, 3))
    if alpha * 1 + (alpha - 1) * a * b <= 0.05:
        alpha = a * b / (a * b + 1) + float(rng.uniform(.02, .5))
    man = MA.KroneckerHermitianPositiveElliptical(a, b, alpha)
    A, Bm = unitdet(pd(rng, a, 1, cond=6)), pd(rng, b, 1, cond=6)
    pA = lambda t: herm(t) - np.real(np.trace(la.inv(A) @ herm(t))) / a * A
    xi, eta = [pA(tang(rng, a, 1)), tang(rng, b, 1, Bm)], [pA(tang(rng, a, 1)), tang(rng, b, 1, Bm)]
    g = [tang(rng, a, 1), gen(rng, b, 1)]
    th = [A, Bm]
    ro = RO(*th, *xi, *eta, *g)

    def ip(x, y):
        tb = np.real(np.trace(la.inv(Bm) @ x[1])) * np.real(np.trace(la.inv(Bm) @ y[1]))
        return alpha * b * inner(A, x[0], y[0]) + alpha * a * inner(Bm, x[1], y[1]) + (alpha - 1) * a ** 2 * tb
    sc = alpha * b * np.sqrt(inner(A, xi[0], xi[0]) * inner(A, eta[0], eta[0])) + (alpha + abs(alpha - 1) * a) * a * b * np.sqrt(inner(Bm, xi[1], xi[1]) * inner(Bm, eta[1], eta[1]))
    close(man.inner(th, xi, eta), ip(xi, eta), "Kronecker elliptical inner", rtol=0, atol=1e-9 * sc, a=a, b=b, alpha=alpha)
    rg = man.egrad2rgrad(th, g)
    w = pair(g[0], xi[0]) + pair(g[1], xi[1])
    s2 = (la.norm(g[0]) * la.norm(xi[0]) + la.norm(g[1]) * la.norm(xi[1])) * 100 / min(1, abs(alpha + (alpha - 1) * a * b))
    close(ip(rg, xi), w, "egrad2rgrad is the gradient of the metric", rtol=0, atol=1e-8 * s2, a=a, b=b, alpha=alpha)
    close(man.inner(th, rg, xi), w, "inner(x, egrad2rgrad(x,g), u)", rtol=0, atol=1e-8 * s2, a=a, b=b, alpha=alpha)
    ro.check()
