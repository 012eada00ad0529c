"""Complex normal and t densities: scipy's own source is executed on the real mapping of the parameters."""
from rsv.spec import *


def quad(x, m, M):
    """(x-m)^H C^-1 (x-m) of sample t"""
    p = M.size
    gi = inv(M)
    y = lambda ix, i: x.at(list(ix) + [i]) - m(i)
    return lambda ix: S(p, lambda i: S(p, lambda j: N.mul(N.mul(conj(y(ix, i)), gi(i, j)), y(ix, j))))


LPI = N.mk_log(N.nfac(N.PI)) if hasattr(N, "PI") else None


def lognormal(x, m, M, cplx):
    P = fromP(M.size)
    d = quad(x, m, M)
    pi = nfof(np.pi)
    if cplx:
        return lambda *ix: -(N.mul(P, N.mk_log(pi))) - N.mk_log(N.mk_det(M)) - d(ix)
    return lambda *ix: N.mul(const(F(-1, 2)), N.mul(P, N.mk_log(pi + pi)) + N.mk_log(N.mk_det(M)) + d(ix))


def logt(x, m, M, df, cplx):
    P = fromP(M.size)
    d = quad(x, m, M)
    pi, nu = nfof(np.pi), nfof(df)
    h = const(F(1, 2))
    D = P + P if cplx else P
    lg = lambda v: N.mk_fn("gammaln", [v])
    e = N.mul(h, nu + D)
    c = lg(e) - lg(N.mul(h, nu)) - N.mul(N.mul(h, D), N.mk_log(N.mul(nu, pi)))
    if cplx:
        c = c - N.mk_log(N.mk_det(M)) + N.mul(P, N.mk_log(const(2)))
    else:
        c = c - N.mul(h, N.mk_log(N.mk_det(M)))
    return lambda *ix: c - N.mul(e, N.mk_log(const(1) + N.mul(N.mul(const(2 if cplx else 1), d(ix)), npow(nu, -1))))


def register(L):
    C = check("C03")
    PR = L.module("robuststats.models.probability")
    kd = {"real": "float", "complex": "complex"}

    def value(name, v, n, f):
        """one value per sample (a scalar for one sample, as in scipy), real"""
        one = isinstance(v, Sc)
        RT.oblige(name + ": one value per sample", one and same(P_(n), 1) if one else len(v.vshape) == 1 and same(v.vshape[0], P_(n)), str(getattr(v, "vshape", "scalar")))
        eq(name, v, [] if one else [n], (lambda: f(toP(0))) if one else f, "float")

    for model in ("normal", "t"):
        for mk_ in ("none", "real", "complex"):
            for ck in ("real", "complex"):
                for xk in ("real", "complex"):
                    cplx = "complex" in (mk_, ck)
                    for vec in (False, True):
                        @C.scenario("%s: location %s, scatter %s, data %s%s" % (model, mk_, ck, xk, ", one sample vector" if vec else ""))
                        def _(model=model, mk_=mk_, ck=ck, xk=xk, cplx=cplx, vec=vec):
                            n, p = dim("n"), dim("p")
                            x = sym("x", [p] if vec else [n, p], kd[xk])
                            m = None if mk_ == "none" else sym("m", [p], kd[mk_])
                            M = msym("C", p, "hpd", ck == "real")
                            df = scal("df", pos=True)
                            xx = x if cplx or xk == "real" else x.real
                            xv = xx[None, :] if vec else xx
                            mm = (lambda i: const(0)) if m is None else (lambda i: m.at([i]))
                            if model == "normal":
                                f = lognormal(xv, mm, M, cplx)
                                D, ex, kw = PR.complex_multivariate_normal, (), {}
                                args = dict(mean=m, cov=mat(M))
                            else:
                                f = logt(xv, mm, M, df, cplx)
                                D = PR.complex_multivariate_t
                                args = dict(loc=m, shape=mat(M), df=df)
                            nn = 1 if vec else n
                            pos = list(args.values())
                            value("log-density, direct call", D.logpdf(x, *pos), nn, f)
                            value("density, direct call", D.pdf(x, **args), nn, lambda *ix: N.mk_exp(f(*ix)))
                            fr = D(**args)
                            value("log-density, frozen model", fr.logpdf(x), nn, f)
                            value("density, frozen model", fr.pdf(x), nn, lambda *ix: N.mk_exp(f(*ix)))
                            value("log-density, second call of the frozen model", fr.logpdf(x), nn, f)
