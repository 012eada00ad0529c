from rsv.spec import *
from .fixedpoint import FixedPoint, NORMS


def register(L):
    C = check("C08")
    m = L.module("robuststats.estimation.covariance")
    for real in (True, False):
        fn = (lambda *a, **k: m.tyler_shape_matrix_fixedpoint(*a, **k)) if real else (lambda *a, **k: m.complex_tyler_shape_matrix_fixedpoint(*a, **k))
        kd = "real" if real else "complex"
        for init in ("default", "given"):
            for norm in ("None", "trace", "determinant", "element"):
                @C.scenario("Tyler fixed point, %s, %s start, normalisation %s" % (kd, init, norm))
                def _(fn=fn, real=real, init=init, norm=norm):
                    n, p = dim("n", 2 if init == "default" else 1), dim("p")
                    fp = FixedPoint(real, lambda d: N.mul(fromP(P_(p)), npow(d, -1)), init, n=n, p=p)
                    tol, it = scal("tol"), pint("iter_max")
                    fp.run(lambda: fn(fp.X, init=fp.init, tol=tol, iter_max=it, normalisation=norm), tol, it, NORMS[norm](p))

        @C.scenario("progress bar does not change the result, %s" % kd)
        def _(fn=fn, real=real):
            n, p = dim("n"), dim("p")
            fp = FixedPoint(real, lambda d: N.mul(fromP(P_(p)), npow(d, -1)), "given", n=n, p=p)
            tol, it = scal("tol"), pint("iter_max")
            fp.run(lambda: fn(fp.X, init=fp.init, tol=tol, iter_max=it, verbosity=True), tol, it)
