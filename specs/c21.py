from rsv.spec import *


def tyler_cost(X, n, p, M):
    """p sum_n log(x_n^H Q^-1 x_n) + N log det Q"""
    gi = inv(M)
    d = lambda t: S(p, lambda i: S(p, lambda j: N.mul(N.mul(conj(X.at([t, i])), gi(i, j)), X.at([t, j]))))
    return N.mul(fromP(P_(p)), S(n, lambda t: N.mk_log(d(t)))) + N.mul(fromP(P_(n)), N.mk_log(N.mk_det(M)))


def register(L):
    C = check("C21")
    m = L.module("robuststats.models.cost")
    for real in (True, False):
        f = (lambda *a: m.Tyler_cost_real(*a)) if real else (lambda *a: m.Tyler_cost_complex(*a))
        kd = "real" if real else "complex"
        for be in (None, False, True):
            @C.scenario("%s cost, autograd=%s" % (kd, be))
            def _(f=f, real=real, be=be):
                n, p = dim("n"), dim("p")
                X = sym("X", [n, p], "float" if real else "complex")
                M = msym("Q", p, "hpd", real)
                v = f(X, mat(M), *(() if be is None else (be,)))
                eq("p sum log(x^H Q^-1 x) + N log det Q", v, [], lambda: tyler_cost(X, n, p, M), "float")

        @C.scenario("%s cost: invariances" % kd)
        def _(f=f, real=real):
            n, p = dim("n"), dim("p")
            X = sym("X", [n, p], "float" if real else "complex")
            Q = mat(msym("Q", p, "hpd", real))
            c = scal("c", pos=True)
            for be in (False, True):
                v = f(X, Q, be)
                eq("cost(cQ) = cost(Q)", f(X, Q * c, be), [], lambda: nfof(v if isinstance(v, Sc) else v.item()))
                w = sym("w", [n], pos=True)
                want = nfof(v if isinstance(v, Sc) else v.item()) + N.mul(N.mul(const(2), fromP(P_(p))), S(n, lambda t: N.mk_log(w.at([t]))))
                eq("rescaled samples shift the cost by 2 p sum log w", f(X * w[:, None], Q, be), [], lambda: want)

        @C.scenario("%s cost: real data on the complex function" % kd if not real else "real cost: integer data")
        def _(f=f, real=real):
            n, p = dim("n"), dim("p")
            X = sym("X", [n, p], "int" if real else "float")
            M = msym("Q", p, "hpd", real)
            eq("value", f(X, mat(M)), [], lambda: tyler_cost(X, n, p, M), "float")

        @C.scenario("%s cost: size mismatch" % kd)
        def _(f=f, real=real):
            n, p, q = dim("n"), dim("p"), dim("q")
            RT.assume(p == q, False)
            for be in (False, True):
                raises("AttributeError", AttributeError, lambda: f(sym("X", [n, p], "float" if real else "complex"), hpd("Q", q, real), be))
