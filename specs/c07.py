from rsv.spec import *


def register(L):
    C = check("C07")
    m = L.module("robuststats.estimation.covariance")
    for real in (True, False):
        k = "real" if real else "complex"

        @C.scenario("trace (%s)" % k)
        def _(real=real):
            p = dim("p")
            A = hpd("A", p, real)
            f = m.get_normalisation_function("trace")
            eq("trace of the normalised matrix", np.trace(A / f(A)), [], lambda: fromP(P_(p)))
            c = scal("c", pos=True)
            eq("homogeneous", f(c * A), [], lambda: N.mul(nfof(c), nfof(f(A))))
            eq("scale invariant", (c * A) / f(c * A), A / f(A))

        @C.scenario("determinant (%s)" % k)
        def _(real=real):
            p = dim("p")
            A = hpd("A", p, real)
            f = m.get_normalisation_function("determinant")
            eq("determinant of the normalised matrix", np.det(A / f(A)), [], lambda: const(1))
            c = scal("c", pos=True)
            eq("homogeneous", f(c * A), [], lambda: N.mul(nfof(c), nfof(f(A))))
            eq("scale invariant", (c * A) / f(c * A), A / f(A))

        @C.scenario("element (%s)" % k)
        def _(real=real):
            p = dim("p")
            A = hpd("A", p, real)
            f = m.get_normalisation_function("element")
            eq("first entry of the normalised matrix", (A / f(A))[0, 0], [], lambda: const(1))
            c = scal("c", pos=True)
            eq("homogeneous", f(c * A), [], lambda: N.mul(nfof(c), nfof(f(A))))
            eq("scale invariant", (c * A) / f(c * A), A / f(A))

        for nm in (None, "None", "unknown", "Trace", ""):
            @C.scenario("no normalisation %r (%s)" % (nm, k))
            def _(real=real, nm=nm):
                p = dim("p")
                A = hpd("A", p, real)
                f = m.get_normalisation_function(nm)
                eq("constant 1", f(A), [], lambda: const(1))
                eq("matrix unchanged", A / f(A), A)
