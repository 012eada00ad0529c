from rsv.spec import *


def register(L):
    C = check("C05")
    m = L.module("robuststats.utils.linalg")
    al = lambda: scal("alpha")
    FN = {
        "sqrtm": (lambda A, b: m.sqrtm(A, b), lambda: npow(N.LAM, F(1, 2))),
        "invsqrtm": (lambda A, b: m.invsqrtm(A, b), lambda: npow(N.LAM, -F(1, 2))),
        "logm": (lambda A, b: m.logm(A, b), lambda: N.mk_log(N.LAM)),
        "expm": (lambda A, b: m.expm(A, b), lambda: N.mk_exp(N.LAM)),
        "powm": (lambda A, b: m.powm(A, al(), b), lambda: npow(N.LAM, nfof(al()))),
        "powm(2)": (lambda A, b: m.powm(A, 2, b), lambda: npow(N.LAM, 2)),
        "powm(-1.5)": (lambda A, b: m.powm(A, -1.5, b), lambda: npow(N.LAM, -F(3, 2))),
    }
    for real in (True, False):
        for be in (False, True):
            for nm, (f, g) in FN.items():
                @C.scenario("%s (%s, autograd=%s)" % (nm, "real" if real else "complex", be))
                def _(f=f, g=g, nm=nm, real=real, be=be):
                    p = dim("p")
                    M = msym("C", p, "hpd", real)
                    r = f(mat(M), be)
                    eq("V f(l) V^H", r, [p, p], fun(g(), M), "float" if real else "complex")
                    eq("Hermitian", r, r.T.conj())

        @C.scenario("algebra (%s)" % ("real" if real else "complex"))
        def _(real=real):
            p = dim("p")
            M = msym("C", p, "hpd", real)
            A = mat(M)
            s = m.sqrtm(A)
            eq("sqrtm(C)^2 = C", s @ s, A)
            s = m.invsqrtm(A)
            eq("invsqrtm(C) C invsqrtm(C) = I", s @ A @ s, [p, p], delta)
            eq("expm(logm(C)) = C", m.expm(m.logm(A)), A)
            a, b = scal("a"), scal("b")
            eq("powm(C,a) powm(C,b) = powm(C,a+b)", m.powm(A, a) @ m.powm(A, b), m.powm(A, a + b))

    @C.scenario("exponential of a Hermitian matrix, default backend argument")
    def _():
        p = dim("p")
        for real in (True, False):
            M = msym("S%d" % real, p, "herm", real)
            eq("expm", m.expm(mat(M)), [p, p], fun(N.mk_exp(N.LAM), M))
            M = msym("C%d" % real, p, "hpd", real)
            eq("logm", m.logm(mat(M)), [p, p], fun(N.mk_log(N.LAM), M))
            eq("sqrtm", m.sqrtm(mat(M)), [p, p], fun(npow(N.LAM, half), M))
            eq("invsqrtm", m.invsqrtm(mat(M)), [p, p], fun(npow(N.LAM, -F(1, 2)), M))
