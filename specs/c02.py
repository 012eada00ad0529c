from rsv.spec import *


def register(L):
    C = check("C02")
    m = L.module("robuststats.models.mappings")

    def blk(at, P):
        """entries of 1/2 [[R, -S], [S, R]] for the complex entry function at"""
        ge, mul = (lambda q: N.mk_iv("ge", q)), N.mul

        def f(i, j):
            lo = lambda q: ge(P - 1 - q)
            hi = lambda q: ge(q - P)
            t = mul(mul(lo(i), lo(j)), N.re(at(i, j)))
            t = t - mul(mul(lo(i), hi(j)), N.im(at(i, j - P)))
            t = t + mul(mul(hi(i), lo(j)), N.im(at(i - P, j)))
            t = t + mul(mul(hi(i), hi(j)), N.re(at(i - P, j - P)))
            return mul(half, t)
        return f

    @C.scenario("covariancetoreal / covariancetocomplex")
    def _():
        p = dim("p")
        P = P_(p)
        c = sym("C", [p, p], "complex")
        r = m.covariancetoreal(c)
        eq("1/2 [[R,-S],[S,R]]", r, [2 * P, 2 * P], blk(lambda i, j: c.at([i, j]), P), "float")
        eq("round trip", m.covariancetocomplex(r), c, kind="complex")

    @C.scenario("Hermitian maps to symmetric")
    def _():
        p = dim("p")
        c = herm("H", p)
        r = m.covariancetoreal(c)
        eq("symmetric", r, r.T)

    @C.scenario("covariancetocomplex on real even-sized input")
    def _():
        p = dim("p")
        P = P_(p)
        a = sym("A", [2 * p, 2 * p])
        eq("2 A11 + 2i A21", m.covariancetocomplex(a), [p, p], lambda i, j: N.mul(const(2), a.at([i, j]) + N.mul(I, a.at([i + P, j]))), "complex")

    @C.scenario("pass-through")
    def _():
        for sh in ([dim("p"), dim("p")], [dim("k"), dim("p"), dim("p")], [dim("p"), dim("q")]):
            for kind in ("float", "int"):
                a = sym("A%d%s" % (len(sh), kind), sh, kind)
                eq("covariancetoreal(real)", m.covariancetoreal(a), a, kind=kind)
                eq("covariancestoreal(real)", m.covariancestoreal(a), a, kind=kind)
            a = sym("Z%d" % len(sh), sh, "complex")
            eq("covariancetocomplex(complex)", m.covariancetocomplex(a), a, kind="complex")
            eq("covariancestocomplex(complex)", m.covariancestocomplex(a), a, kind="complex")

    @C.scenario("batch towards real")
    def _():
        k, p = dim("k"), dim("p")
        P = P_(p)
        c = sym("C", [k, p, p], "complex")
        eq("every matrix of the batch", m.covariancestoreal(c), [k, 2 * P, 2 * P], lambda b, i, j: blk(lambda x, y: c.at([b, x, y]), P)(i, j), "float")

    @C.scenario("batch towards complex")
    def _():
        k, p = dim("k"), dim("p")
        P = P_(p)
        a = sym("A", [k, 2 * p, 2 * p])
        eq("every matrix of the batch", m.covariancestocomplex(a), [k, P, P], lambda b, i, j: N.mul(const(2), a.at([b, i, j]) + N.mul(I, a.at([b, i + P, j]))), "complex")

    @C.scenario("rejections")
    def _():
        p, q = dim("p"), dim("q")
        RT.assume(p == q, False)
        raises("non-square complex", AttributeError, lambda: m.covariancetoreal(sym("a", [p, q], "complex")))
        raises("non-square real to complex", AttributeError, lambda: m.covariancetocomplex(sym("b", [2 * p, 2 * q])))
        raises("odd real to complex", AttributeError, lambda: m.covariancetocomplex(sym("c", [2 * p + 1, 2 * p + 1])))
        raises("odd batch to complex", AttributeError, lambda: m.covariancestocomplex(sym("d", [3, 2 * p + 1, 2 * p + 1])))
        raises("vector", AttributeError, lambda: m.covariancetoreal(sym("e", [p], "complex")))
        raises("vector to complex", AttributeError, lambda: m.covariancetocomplex(sym("f", [p])))
        raises("non-square batch to real", AttributeError, lambda: m.covariancestoreal(sym("g", [dim("k"), p, q], "complex")))
        raises("non-square batch to complex", AttributeError, lambda: m.covariancestocomplex(sym("h", [dim("k"), 2 * p, 2 * q])))
        raises("4-d batch", AttributeError, lambda: m.covariancestoreal(sym("i", [p, p, p, p], "complex")))
        raises("2-d as batch", AttributeError, lambda: m.covariancestocomplex(sym("j", [2 * p, 2 * p])))
