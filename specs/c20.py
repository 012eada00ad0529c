from rsv.spec import *
from specs.c16 import batch_mats, entries, over, symof, trprod, multih, asc


def sc(v):
    return asc(v)


def register(L):
    C = check("C20")
    m = L.module("robuststats.models.manifolds")

    def parts(kinds):
        """concrete component manifolds with symbolic sizes"""
        mans, x, y, u, v, g, h = [], [], [], [], [], [], []
        for t, kd in enumerate(kinds):
            n = dim("n%d" % t)
            k = None
            if kd == "vec":
                mans.append(m.StrictlyPositiveVectors(n))
                x.append(sym("x%d" % t, [n, 1], pos=True)); y.append(sym("y%d" % t, [n, 1], pos=True))
                for l, nm in ((u, "u"), (v, "v"), (g, "g"), (h, "h")):
                    l.append(sym("%s%d" % (nm, t), [n, 1]))
            else:
                k = dim("k%d" % t, 2) if kd == "hpdk" else None
                mans.append(m.HermitianPositiveDefinite(n, k) if k is not None else m.HermitianPositiveDefinite(n))
                x.append(batch_mats("x%d" % t, k, n, "hpd")); y.append(batch_mats("y%d" % t, k, n, "hpd"))
                for l, nm in ((u, "u"), (v, "v")):
                    l.append(batch_mats("%s%d" % (nm, t), k, n, "herm"))
                for l, nm in ((g, "g"), (h, "h")):
                    l.append(sym("%s%d" % (nm, t), [n, n] if k is None else [k, n, n], "complex"))
        return mans, x, y, u, v, g, h
    sq = lambda a: nfof(np.squeeze(a).item() if isinstance(a, Arr) else a)

    def pairing(g, u):
        tot = const(0)
        for a, b in zip(g, u):
            ix = [fresh(s, "q") for s in a.vshape]
            e = mul(conj(a.at([toP(v) for v in ix])), b.at([toP(v) for v in ix]))
            for v in ix:
                e = nsum(e, v)
            tot = tot + e
        return N.re(tot)

    for kinds in (("vec",), ("hpd",), ("vec", "hpd"), ("hpd", "vec", "hpdk")):
        nm = "x".join(kinds)
        for wk in ("weights", "no weights"):
            def setup(kinds=kinds, wk=wk):
                mans, *r = parts(kinds)
                if wk == "weights":
                    w = [scal("w%d" % t, pos=True) for t in range(len(kinds))]
                    man = m.WeightedProduct(mans, w)
                    wn = [nfof(t) for t in w]
                else:
                    man = m.WeightedProduct(mans)
                    wn = [const(1)] * len(kinds)
                return man, mans, wn, r

            @C.scenario("metric and distance of %s, %s" % (nm, wk))
            def _(setup=setup):
                man, mans, w, (x, y, u, v, g, h) = setup()
                acc = const(0)
                for t, s in enumerate(mans):
                    acc = acc + mul(w[t], sq(s.inner(x[t], u[t], v[t])))
                eq("inner is the weighted sum", man.inner(x, u, v), [], lambda: acc)
                d = const(0)
                for t, s in enumerate(mans):
                    d = d + mul(w[t], sq(s.dist(x[t], y[t]) ** 2))
                eq("dist^2 is the weighted sum", asc(man.dist(x, y)) ** 2, [], lambda: d)

            @C.scenario("gradient and Hessian of %s, %s" % (nm, wk))
            def _(setup=setup):
                man, mans, w, (x, y, u, v, g, h) = setup()
                r = man.egrad2rgrad(x, g)
                eq("inner(x, egrad2rgrad(x, g), u) = sum of the pairings", man.inner(x, r, u), [], lambda: pairing(g, u))
                hs = man.ehess2rhess(x, g, h, u)
                RT.oblige("one tangent per component", len(r) == len(mans) and len(hs) == len(mans))
                for t, s in enumerate(mans):
                    a, b = s.egrad2rgrad(x[t], g[t]), s.ehess2rhess(x[t], g[t], h[t], u[t])
                    eq("gradient over the weight, component %d" % t, r[t], list(a.vshape), (lambda a, t: lambda *ix: mul(npow(w[t], -1), a.at(list(ix))))(a, t))
                    eq("Hessian over the weight, component %d" % t, hs[t], list(b.vshape), (lambda b, t: lambda *ix: mul(npow(w[t], -1), b.at(list(ix))))(b, t))

            @C.scenario("random tangent of %s, %s" % (nm, wk))
            def _(setup=setup):
                man, mans, w, (x, y, u, v, g, h) = setup()
                r = man.randvec(x)
                for t in r:
                    normalisers_positive(t)
                RT.oblige("one tangent per component", len(r) == len(mans))
                eq("unit norm", man.inner(x, r, r), [], lambda: const(1))

    @C.scenario("Kronecker elliptical metric and gradient")
    def _():
        a, b = dim("a"), dim("b")
        al = scal("alpha", pos=True)
        alpha = nfof(al)
        an, bn = fromP(P_(a)), fromP(P_(b))
        man = m.KroneckerHermitianPositiveElliptical(a, b, al)
        A, B = hpd("A", a), hpd("B", b)
        xa, xb, za, zb = herm("xa", a), herm("xb", b), herm("za", a), herm("zb", b)
        MA, MB = msym("A", a), msym("B", b)
        e = lambda t: (lambda i, j: t.at([i, j]))
        one = const(1)

        def metric(x1, x2, y1, y2):
            tr = lambda t: trprod(b, inv(MB), t)
            return (mul(mul(alpha, bn), trprod(a, inv(MA), x1, inv(MA), y1)) + mul(mul(alpha, an), trprod(b, inv(MB), x2, inv(MB), y2))
                    + mul(mul(alpha + const(-1), mul(an, an)), mul(tr(x2), tr(y2))))
        eq("inner", man.inner([A, B], [xa, xb], [za, zb]), [], lambda: N.re(metric(e(xa), e(xb), e(za), e(zb))))
        # tangent directions: traceless first component
        ga, gb = herm("ga", a), sym("gb", [b, b], "complex")
        u1 = man._manifolds[0].proj(A, za)
        den = alpha + mul(alpha + const(-1), mul(an, bn))
        PL.CTX.add_pos(N.npow(den, 1))
        r = man.egrad2rgrad([A, B], [ga, gb])
        want = N.re(S(a, lambda i: S(a, lambda j: mul(conj(ga.at([i, j])), u1.at([i, j])))) + S(b, lambda i: S(b, lambda j: mul(conj(gb.at([i, j])), zb.at([i, j])))))
        RT.oblige_eq("metric(x, egrad2rgrad(x, g), u) = Euclidean pairing", N.re(metric(e(r[0]), e(r[1]), e(u1), e(zb))), want)
        eq("inner(x, egrad2rgrad(x, g), u) = Euclidean pairing", man.inner([A, B], r, [u1, zb]), [], lambda: want)
        i, j = toP(fresh(P_(b), "i")), toP(fresh(P_(b), "j"))
        eq("second component Hermitian", r[1], multih(r[1]))
        eq("first component Hermitian", r[0], multih(r[0]))
        RT.oblige_eq("first component traceless", trprod(a, inv(MA), e(r[0])), const(0))
