"""Natural-gradient Tyler: what the optimiser is given (cost, gradient, manifold, start) and what is made of the point it returns.
autograd.grad(f) is an assumed contract: the gradient of f; f itself is obliged to be the stated cost, for every positive-definite matrix."""
from rsv.spec import *
from rsv import diff
from .c21 import tyler_cost


def egrad_closed(Y, n, p, M):
    """-p sum_n Q^-1 x x' Q^-1 / (x' Q^-1 x) + N Q^-1"""
    gi = inv(M)
    u = lambda t, i: S(p, lambda k: N.mul(gi(i, k), Y.at([t, k])))
    d = lambda t: S(p, lambda i: S(p, lambda j: N.mul(N.mul(Y.at([t, i]), gi(i, j)), Y.at([t, j]))))
    return lambda i, j: N.mul(fromP(P_(n)), gi(i, j)) - N.mul(fromP(P_(p)), S(n, lambda t: N.mul(npow(d(t), -1), N.mul(u(t, i), u(t, j)))))


def unit(X, n, p):
    """samples scaled to unit norm"""
    r = lambda t: npow(S(p, lambda i: N.mul(X.at([t, i]), X.at([t, i]))), -half)
    return build([P_(n), P_(p)], lambda t, i: N.mul(r(t), X.at([t, i])), "float")


def norms(nm, p):
    if nm == "trace":
        return lambda M: N.mul(npow(fromP(P_(p)), -1), S(p, lambda i: N.re(M(i, i))))
    if nm == "determinant":
        return lambda M: npow(N.re(nfof(np.linalg.det(build([P_(p), P_(p)], M, "complex")))), npow(fromP(P_(p)), -1))
    if nm == "element":
        return lambda M: M(toP(0), toP(0))
    return lambda M: const(1)


def register(L):
    C = check("C22")
    M = L.module("robuststats.estimation.covariance")

    @C.scenario("closed-form gradient is the gradient of the Tyler cost")
    def _():
        n, p = dim("n"), dim("p")
        Y = sym("Y", [n, p], "float")
        Q = msym("Q", p, "hpd", True)
        E = msym("E", p, "herm", True)
        i, j = fresh(P_(p)), fresh(P_(p))
        G = egrad_closed(Y, n, p, Q)
        RT.oblige_eq("tr(G E) = derivative of the cost at Q along every symmetric E", nsum(nsum(N.mul(G(toP(i), toP(j)), E.at(toP(j), toP(i))), i), j), diff.D(tyler_cost(Y, n, p, Q), Q, E.at))
        i, j = toP(fresh(P_(p))), toP(fresh(P_(p)))
        RT.oblige_eq("symmetric", G(i, j), G(j, i))

    def optimiser(n, m, X, start, result, seen):
        """what the solver must be handed; it returns an arbitrary positive-definite matrix"""
        Y = unit(X, n, m)

        def autograd(f, argnum, *a, **k):
            RT.oblige("gradient with respect to the matrix", argnum in (0, [0], (0,)) and len(a) == 1 and not k, str(argnum))
            G = msym("T", m, "hpd", True)
            eq("the function differentiated is the cost of the unit-norm samples", f(mat(G)), [], lambda: tyler_cost(Y, n, m, G), "float")
            T = a[0]
            i, j = toP(fresh(P_(m))), toP(fresh(P_(m)))
            RT.oblige_eq("differentiated at the point asked for", T.at([i, j]), msym("Q", m, "hpd", True).at(i, j))
            g = build([P_(m), P_(m)], egrad_closed(Y, n, m, msym("Q", m, "hpd", True)), "float")
            return [g] if isinstance(argnum, list) else ((g,) if isinstance(argnum, tuple) else g)
        RT.autograd_hook = autograd

        def on(sv, problem, x):
            seen.append(problem)
            man = problem.manifold
            RT.oblige("manifold: symmetric positive definite matrices of the data dimension", type(man).__name__ == "SymmetricPositiveDefinite" and same(P_(man._n), P_(m)) and man._k == 1, type(man).__name__)
            if start is None:
                RT.oblige("start left to the optimiser", x is None, "")
            else:
                eq("start", x, [P_(m), P_(m)], start)
            Q = msym("Q", m, "hpd", True)
            for t in (1, 2):
                eq("cost handed to the optimiser, call %d" % t, problem.cost(mat(Q)), [], lambda: tyler_cost(Y, n, m, Q), "float")
                eq("gradient handed to the optimiser, call %d" % t, problem.egrad(mat(Q)), [P_(m), P_(m)], egrad_closed(Y, n, m, Q), "float")
            return mat(result)
        RT.on_solve = on
        return Y

    for real in (True, False):
        kd = "real" if real else "complex"
        for nm in ("None", "trace", "determinant", "element"):
            for init in (False, True):
                for how in ("function", "estimator"):
                    @C.scenario("%s %s, normalisation %s, %s start" % (kd, how, nm, "given" if init else "default"))
                    def _(real=real, nm=nm, init=init, how=how):
                        n, p = dim("n"), dim("p")
                        X = sym("X", [n, p], "float" if real else "complex")
                        I0 = msym("I", p, "hpd", real) if init else None
                        st = None
                        P = P_(p)
                        if real:
                            m, Xr = P, X
                            if init:
                                st = I0.at
                        else:
                            m = P + P
                            ge = lambda q: N.mk_iv("ge", q)
                            Xr = build([P_(n), m], lambda t, i: N.mul(ge(P - i - 1), N.re(X.at([t, i]))) + N.mul(ge(i - P), N.im(X.at([t, i - P]))), "float")
                            if init:
                                from .c04 import realmat
                                R = realmat(I0.at, P)
                                st = lambda i, j: R.at([i, j])
                        Z = msym("Z", m, "hpd", True)
                        seen = []
                        Y = optimiser(n, m, Xr, st, Z, seen)
                        i0 = mat(I0) if init else None
                        if how == "function":
                            f = M.tyler_shape_matrix_naturalgradient if real else M.complex_tyler_shape_matrix_naturalgradient
                            sigma, c, it = f(X, init=i0, normalisation=nm)
                        else:
                            e = (M.TylerShapeMatrix if real else M.ComplexTylerShapeMatrix)(method="natural gradient", normalisation=nm)
                            r = e.fit(X, init=i0) if init else e.fit(X)
                            RT.oblige("fit returns the estimator", r is e, "")
                            sigma, c, it = e.covariance_, e.err_, e.iteration_
                        RT.oblige("one optimisation", len(seen) == 1, str(len(seen)))
                        RT.oblige("no iteration count", it is None, "")
                        eq("minus the cost at the optimum", c, [], lambda: -tyler_cost(Y, n, m, Z), "float")
                        if real:
                            W = Z.at
                        else:
                            V = lambda i, j: N.scale(Z.at(i, j), (2, 0)) + N.scale(Z.at(i + P, j), (0, 2))
                            W = lambda i, j: N.mul(half, V(i, j) + conj(V(j, i)))
                        s = norms(nm, p)(W)
                        eq("the optimum divided by its normalisation", sigma, [P, P], lambda i, j: N.mul(npow(s, -1), W(i, j)))
