from rsv.spec import *


def register(L):
    C = check("C06")
    m = L.module("robuststats.utils.linalg")

    for kind in ("float", "complex"):
        @C.scenario("vec / unvec (%s)" % kind)
        def _(kind=kind):
            n = dim("n")
            p, q = dim("p"), dim("q")
            A = sym("A", [p, q], kind)
            v = m.vec(A)
            # column stacking: v[j*p + i] = A[i, j]
            shape_eq("vec length", v, [p * q])
            i, j = fresh(P_(p), "i"), fresh(P_(q), "j")
            RT.oblige_eq("vec stacks columns", v.at([toP(j) * P_(p) + toP(i)]), A.at([toP(i), toP(j)]))
            M = sym("M", [n, n], kind)
            eq("unvec(vec(M)) = M", m.unvec(m.vec(M)), M, kind=kind)

        @C.scenario("vech / unvech (%s)" % kind)
        def _(kind=kind):
            n = dim("n")
            S_ = herm("H", n, kind == "float")
            v = m.vech(S_)
            shape_eq("vech length n(n+1)/2", v, [P_(n) * (P_(n) + 1).scale(F(1, 2))])
            eq("unvech(vech(H)) = H", m.unvech(v), S_, kind=kind)

        @C.scenario("hermitian / multiherm (%s)" % kind)
        def _(kind=kind):
            n, k = dim("n"), dim("k")
            for be in (False, True):
                M = sym("M", [n, n], kind)
                want = lambda i, j: N.mul(half, M.at([i, j]) + conj(M.at([j, i])))
                eq("hermitian", m.hermitian(M, be), [n, n], want)
                eq("multiherm (single)", m.multiherm(M, be), [n, n], want)
                B = sym("B", [k, n, n], kind)
                eq("multiherm (batch)", m.multiherm(B, be), [k, n, n], lambda b, i, j: N.mul(half, B.at([b, i, j]) + conj(B.at([b, j, i]))))
                eq("multihconj (batch)", m.multihconj(B, be), [k, n, n], lambda b, i, j: conj(B.at([b, j, i])))

    @C.scenario("vech(unvech(v)) = v")
    def _():
        n = dim("n")
        q = P_(n) * (P_(n) + 1).scale(F(1, 2))
        v = sym("v", [sint(q)])
        eq("vech(unvech(v)) = v", m.vech(m.unvech(v)), v)

    @C.scenario("ToeplitzMatrix")
    def _():
        p = dim("p")
        rho = scal("rho", pos=True)
        ge = lambda q: N.mk_iv("ge", q)
        R = nfof(rho)
        pw = lambda e: npow(R, fromP(e))
        want = lambda i, j: N.mul(ge(i - j), pw(i - j)) + N.mul(ge(j - i - 1), pw(j - i))
        eq("rho^|i-j|", m.ToeplitzMatrix(rho, p), [p, p], want, "complex")
        eq("rho^|i-j| (real dtype)", m.ToeplitzMatrix(rho, p, dtype=np.float64), [p, p], want, "float")
