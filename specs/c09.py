from rsv.spec import *
from .fixedpoint import FixedPoint


def register(L):
    C = check("C09")
    m = L.module("robuststats.estimation.covariance")
    for real in (True, False):
        fn = (lambda *a, **k: m.student_t_mle_fixed_point(*a, **k)) if real else (lambda *a, **k: m.complex_student_t_mle_fixed_point(*a, **k))
        kd = "real" if real else "complex"

        def weight(df, p, real=real):
            c = nfof(df) if real else N.mul(half, nfof(df))
            return lambda d: N.mul(c + fromP(P_(p)), npow(c + d, -1))
        for init in ("default", "given"):
            @C.scenario("Student-t fixed point, %s, %s start" % (kd, init))
            def _(fn=fn, weight=weight, real=real, init=init):
                n, p = dim("n", 2 if init == "default" else 1), dim("p")
                df = scal("df", pos=True)
                fp = FixedPoint(real, weight(df, p), init, n=n, p=p)
                tol, it = scal("tol"), pint("iter_max")
                fp.run(lambda: fn(fp.X, df, init=fp.init, tol=tol, iter_max=it), tol, it)

        @C.scenario("progress bar does not change the result, %s" % kd)
        def _(fn=fn, weight=weight, real=real):
            n, p = dim("n"), dim("p")
            df = scal("df", pos=True)
            fp = FixedPoint(real, weight(df, p), "given", n=n, p=p)
            tol, it = scal("tol"), pint("iter_max")
            fp.run(lambda: fn(fp.X, df, init=fp.init, tol=tol, iter_max=it, verbosity=True), tol, it)

        @C.scenario("df <= 0 rejected, %s" % kd)
        def _(fn=fn, real=real):
            n, p = dim("n", 2), dim("p")
            X = sym("X", [n, p], "float" if real else "complex")
            q = scal("q", pos=True)
            for v, nm in ((-q, "negative"), (0, "zero"), (0.0, "zero float"), (-3, "negative int")):
                raises("df %s" % nm, AttributeError, lambda: fn(X, v))
                raises("df %s with start" % nm, AttributeError, lambda: fn(X, v, init=hpd("S", p, real)))
