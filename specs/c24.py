"""Kronecker Student: the cost is minus the log-likelihood of the complex t model with scatter A kron B, the gradient
returned is its Euclidean gradient (directional derivatives of the code's own cost, in every Hermitian direction)."""
from rsv.spec import *
from rsv import diff
from .c03 import logt


def kron(A, B):
    """A kron B as a matrix"""
    a, b = A.size, B.size
    r, c = fresh(a * b), fresh(a * b)
    def at(i, j):
        qi, ri = PL.idivmod(i, b)
        qj, rj = PL.idivmod(j, b)
        return N.mul(A.at(qi, qj), B.at(ri, rj))
    return N.mat_from(at(toP(r), toP(c)), r, c, a * b)


def lik(X, m, A, B, df, n):
    """log-likelihood of the samples"""
    f = logt(X, m, kron(A, B), df, True)
    return S(n, lambda t: f(t))


def pairing(G, E, p):
    """Re tr(G^H E)"""
    i, j = fresh(p), fresh(p)
    return N.re(nsum(nsum(N.mul(conj(G(toP(i), toP(j))), E(toP(i), toP(j))), j), i))


def register(L):
    C = check("C24")
    ST = L.module("robuststats.estimation.structured")
    kd = {"real": "float", "complex": "complex"}

    def setup(xk, lk):
        n, a, b = dim("n"), dim("a"), dim("b")
        p = P_(a) * P_(b)
        X = sym("X", [n, sint(p)], kd[xk])
        m = None if lk == "none" else sym("m", [sint(p)], kd[lk])
        mm = (lambda i: const(0)) if m is None else (lambda i: m.at([i]))
        return n, a, b, X, m, mm, msym("A", a, "hpd", False), msym("B", b, "hpd", False), scal("df", pos=True)

    for xk in ("complex", "real"):
        for lk in ("none", "real", "complex"):
            @C.scenario("cost: data %s, location %s" % (xk, lk))
            def _(xk=xk, lk=lk):
                n, a, b, X, m, mm, A, B, df = setup(xk, lk)
                cost = ST._generate_cost_function_kronecker_student(X, df, *(() if m is None else (m,)))
                for k in (1, 2):
                    eq("cost = minus the sum of log-densities", cost(mat(A), mat(B)), [], lambda: -lik(X, mm, A, B, df, n), "float")

            @C.scenario("gradient: data %s, location %s" % (xk, lk))
            def _(xk=xk, lk=lk):
                n, a, b, X, m, mm, A, B, df = setup(xk, lk)
                cost = ST._generate_cost_function_kronecker_student(X, df, m)
                egrad = ST._generate_egrad_function_kronecker_student(X, a, b, df, m)
                c = cost(mat(A), mat(B))
                c = nfof(c if isinstance(c, Sc) else c.item())
                g = egrad(mat(A), mat(B))
                for nm, G, M, s in (("A", g[0], A, a), ("B", g[1], B, b)):
                    shape_eq("shape of the gradient in " + nm, G, [s, s])
                    eq("the gradient in %s is Hermitian" % nm, G, [s, s], lambda i, j: conj(G.at([j, i])))
                    E = msym("E" + nm, s, "herm", False)
                    d = diff.D(c, M, E.at)
                    eq("derivative of the cost in %s along every Hermitian direction" % nm, mk(pairing(lambda i, j: G.at([i, j]), E.at, P_(s)), "float"), [], lambda: d, "float")

    def closed(X, m, A, B, df, n):
        """the Euclidean gradient in closed form (equal to the derivative of the likelihood, see the gradient scenarios)"""
        a, b = A.size, B.size
        ga, gb = inv(A), inv(B)
        Pa, Pb = fromP(a), fromP(b)
        M = lambda t, k, l: X.at([t, toP(k) + toP(l) * b]) - m(toP(k) + toP(l) * b)     # b x a, column-major
        Sn = lambda t, i, j: S(b, lambda k: S(b, lambda l: N.mul(N.mul(M(t, k, i), gb(l, k)), conj(M(t, l, j)))))
        Rn = lambda t, k, l: S(a, lambda i: S(a, lambda j: N.mul(N.mul(M(t, k, i), ga(j, i)), conj(M(t, l, j)))))
        q = lambda t: S(a, lambda i: S(a, lambda j: N.mul(ga(i, j), Sn(t, j, i))))
        two = const(2)
        w = lambda t: N.mul(nfof(df) + N.mul(two, N.mul(Pa, Pb)), npow(nfof(df) + N.mul(two, q(t)), -1))
        nn = fromP(P_(n))
        GA = lambda i, j: N.mul(N.mul(nn, Pb), ga(i, j)) - S(n, lambda t: N.mul(w(t), S(a, lambda u: S(a, lambda v: N.mul(N.mul(ga(i, u), Sn(t, u, v)), ga(v, j))))))
        GB = lambda i, j: N.mul(N.mul(nn, Pa), gb(i, j)) - S(n, lambda t: N.mul(w(t), S(b, lambda u: S(b, lambda v: N.mul(N.mul(gb(i, u), Rn(t, u, v)), gb(v, j))))))
        return GA, GB

    for cent in (True, False):
        for init in (False, True):
            for store in (True, False):
                @C.scenario("fit and score: assume_centered=%s, %s start, store_precision=%s" % (cent, "given" if init else "default", store))
                def _(cent=cent, init=init, store=store):
                    n, n2, a, b = dim("n", 2), dim("n2"), dim("a"), dim("b")
                    p = P_(a) * P_(b)
                    X, X2 = sym("X", [n, sint(p)], "complex"), sym("X2", [n2, sint(p)], "complex")
                    df = scal("df", pos=True)
                    A, B, A1, B1 = msym("A", a, "hpd", False), msym("B", b, "hpd", False), msym("A1", a, "hpd", False), msym("B1", b, "hpd", False)
                    m = (lambda i: const(0)) if cent else (lambda i: N.mul(npow(fromP(P_(n)), -1), S(n, lambda t: X.at([t, i]))))
                    start = [hpd("I0", a, False), hpd("I1", b, False)]
                    seen = []

                    def on(solver, problem, x):
                        seen.append(problem)
                        man = problem.manifold
                        RT.oblige("manifold: Hermitian Kronecker elliptical of the right sizes", type(man).__name__ == "KroneckerHermitianPositiveElliptical" and len(man._manifolds) == 2 and all(same(P_(u._n), P_(v)) for u, v in zip(man._manifolds, (a, b))), "")
                        RT.oblige("start has two factors", len(x) == 2, "")
                        for k, s in ((0, a), (1, b)):
                            eq("start, factor %d" % k, x[k], [s, s], (lambda i, j: start[k].at([i, j])) if init else (lambda i, j: N.delta(i, j)))
                        eq("cost handed to the optimiser", problem.cost(mat(A1), mat(B1)), [], lambda: -lik(X, m, A1, B1, df, n), "float")
                        g = problem.egrad(mat(A1), mat(B1))
                        w = closed(X, m, A1, B1, df, n)
                        RT.oblige("gradient has two parts", len(g) == 2, "")
                        eq("gradient handed to the optimiser, first factor", g[0], [a, a], w[0])
                        eq("gradient handed to the optimiser, second factor", g[1], [b, b], w[1])
                        return (mat(A), mat(B))
                    RT.on_solve = on
                    e = ST.KroneckerStudent(a, b, df, store_precision=store, assume_centered=cent)
                    r = e.fit(X, **({"init": (start[0], start[1])} if init else {}))
                    RT.oblige("fit returns the estimator", r is e, "")
                    RT.oblige("one optimisation", len(seen) == 1, str(len(seen)))
                    eq("A_", e.A_, [a, a], A.at)
                    eq("B_", e.B_, [b, b], B.at)
                    K = kron(A, B)
                    eq("covariance_", e.covariance_, [sint(p), sint(p)], K.at)
                    eq("location_", e.location_, [sint(p)], lambda i: m(i))
                    for k in (1, 2):
                        eq("score, call %d" % k, e.score(X2), [], lambda: lik(X2, m, A, B, df, n2), "float")
                    eq("score leaves A_ as it was", e.A_, [a, a], A.at)

    @C.scenario("closed-form gradient is the gradient of the likelihood")
    def _():
        n, a, b, X, m, mm, A, B, df = setup("complex", "complex")
        c = -lik(X, mm, A, B, df, n)
        for nm, G, M, s in zip("AB", closed(X, mm, A, B, df, n), (A, B), (a, b)):
            E = msym("E" + nm, s, "herm", False)
            RT.oblige("derivative in %s" % nm, N.eq(pairing(G, E.at, P_(s)), diff.D(c, M, E.at)), "", "nf")
