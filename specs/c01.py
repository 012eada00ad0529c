from rsv.spec import *


def register(L):
    C = check("C01")
    m = L.module("robuststats.models.mappings")

    def realvec(x, p):
        return lambda *ix: None

    @C.scenario("arraytoreal: complex vector")
    def _():
        p = dim("p")
        x = sym("x", [p], "complex")
        r = m.arraytoreal(x)
        P = P_(p)
        eq("arraytoreal(x) = [Re x | Im x]", r, [2 * P],
           lambda i: N.mul(N.mk_iv("ge", P - 1 - i), N.re(x.at([i]))) + N.mul(N.mk_iv("ge", i - P), N.im(x.at([i - P]))), "float")
        eq("arraytocomplex(arraytoreal(x)) = x", m.arraytocomplex(r), x, kind="complex")

    @C.scenario("arraytoreal: complex sample matrix")
    def _():
        n, p = dim("n"), dim("p")
        x = sym("X", [n, p], "complex")
        r = m.arraytoreal(x)
        P = P_(p)
        eq("arraytoreal(X) = [Re X | Im X]", r, [n, 2 * P],
           lambda k, i: N.mul(N.mk_iv("ge", P - 1 - i), N.re(x.at([k, i]))) + N.mul(N.mk_iv("ge", i - P), N.im(x.at([k, i - P]))), "float")
        eq("arraytocomplex(arraytoreal(X)) = X", m.arraytocomplex(r), x, kind="complex")

    @C.scenario("arraytocomplex: real input of even length")
    def _():
        p, n = dim("p"), dim("n")
        y = sym("y", [2 * p])
        eq("vector round trip", m.arraytoreal(m.arraytocomplex(y)), y, kind="float")
        eq("vector", m.arraytocomplex(y), [p], lambda i: y.at([i]) + N.mul(I, y.at([i + P_(p)])), "complex")
        y = sym("Y", [n, 2 * p])
        eq("matrix round trip", m.arraytoreal(m.arraytocomplex(y)), y, kind="float")
        eq("matrix", m.arraytocomplex(y), [n, p], lambda k, i: y.at([k, i]) + N.mul(I, y.at([k, i + P_(p)])), "complex")

    for kind in ("float", "int"):
        @C.scenario("pass-through (%s)" % kind)
        def _(kind=kind):
            for nd in (1, 2, 3):
                a = sym("a%d" % nd, [dim("d%d" % i) for i in range(nd)], kind)
                eq("real input unchanged (%d-d)" % nd, m.arraytoreal(a), a, kind=kind)

    @C.scenario("pass-through (complex)")
    def _():
        for nd in (1, 2, 3):
            a = sym("a%d" % nd, [dim("d%d" % i) for i in range(nd)], "complex")
            eq("complex input unchanged (%d-d)" % nd, m.arraytocomplex(a), a, kind="complex")

    @C.scenario("other dimensions rejected")
    def _():
        for nd in (3, 4):
            ds = [dim("d%d" % i) for i in range(nd - 1)] + [2 * dim("e")]
            raises("arraytoreal rejects %d-d complex" % nd, AttributeError, lambda: m.arraytoreal(sym("c%d" % nd, ds, "complex")))
            raises("arraytocomplex rejects %d-d real" % nd, AttributeError, lambda: m.arraytocomplex(sym("r%d" % nd, ds)))
        raises("arraytoreal rejects 0-d complex", AttributeError, lambda: m.arraytoreal(np.asarray(scal("z", kind="complex", real=False))))
        raises("arraytocomplex rejects 0-d real", AttributeError, lambda: m.arraytocomplex(np.asarray(scal("z"))))
