"""Complex sampling: the draws are those of scipy's own real models (executed source) on the real mapping of the
parameters, read as complex vectors."""
from rsv.spec import *
from rsv import shims


def realvec(m, p):
    return build([p + p], lambda i: N.mul(N.mk_iv("ge", p - i - 1), N.re(m(i))) + N.mul(N.mk_iv("ge", i - p), N.im(m(i - p))), "float")


def realmat(c, p):
    h = F(1, 2)
    def at(i, j):
        lo, hi = (lambda k: N.mk_iv("ge", p - k - 1)), (lambda k: N.mk_iv("ge", k - p))
        g = lambda a, b, f: N.mul(N.mul(a(i), b(j)), f(c(i - p if a is hi else i, j - p if b is hi else j)))
        return N.mul(const(h), g(lo, lo, N.re) + g(hi, hi, N.re) + g(hi, lo, N.im) - g(lo, hi, N.im))
    return build([p + p, p + p], at, "float")


def register(L):
    C = check("C04")
    PR = L.module("robuststats.models.probability")
    ST = shims.get("scipy.stats._multivariate", L)
    kd = {"real": "float", "complex": "complex"}

    def same_draws(name, got, want, n, p, cplx):
        if not cplx:
            RT.oblige(name + ": real draws as they are", got.kind == "float" if isinstance(got, (Arr, Sc)) else False, "kind")
            shape_eq(name + ": shape", got, list(want.vshape) if isinstance(want, Arr) else []) if isinstance(got, Arr) else RT.oblige(name + ": shape", not isinstance(want, Arr), "")
            eq(name + ": the real draws", got, list(want.vshape) if isinstance(want, Arr) else [], (lambda *ix: want.at(list(ix))) if isinstance(want, Arr) else (lambda: nfof(want)), "float")
            return
        RT.oblige(name + ": complex", getattr(got, "kind", None) == "complex", str(getattr(got, "kind", type(got))))
        sh = list(want.vshape[:-1]) + [p]
        shape_eq(name + ": shape", got, sh)
        eq(name + ": the real draws read as complex vectors", got, sh, lambda *ix: want.at(list(ix)) + N.scale(want.at(list(ix[:-1]) + [toP(ix[-1]) + p]), (0, 1)), "complex")

    for model in ("normal", "t"):
        for mk_ in ("none", "real", "complex"):
            for ck in ("real", "complex"):
                for sz in ("one", "many"):
                    for st in ("integer", "state", "global"):
                        @C.scenario("%s: location %s, scatter %s, %s draw%s, random state %s" % (model, mk_, ck, sz, "" if sz == "one" else "s", st))
                        def _(model=model, mk_=mk_, ck=ck, sz=sz, st=st):
                            n, p = dim("n", 2), dim("p")
                            P = P_(p)
                            size = 1 if sz == "one" else n
                            cplx = "complex" in (mk_, ck)
                            m = None if mk_ == "none" else sym("m", [p], kd[mk_])
                            M = msym("C", p, "hpd", ck == "real")
                            df = scal("df", pos=True)
                            mm = (lambda i: const(0)) if m is None else (lambda i: m.at([i]))
                            rm, rc = (realvec(mm, P), realmat(lambda i, j: M.at(i, j), P)) if cplx else (build([P], mm, "float"), mat(M))
                            s = pint("s")

                            def rs():
                                """the random state the caller passes (the same one each time)"""
                                if st == "integer":
                                    return s
                                if st == "state":
                                    return np.RandomState(s)
                                np.random.seed(s)
                                return None
                            if model == "normal":
                                want = lambda: ST.multivariate_normal_gen().rvs(rm, rc, size, rs())
                                D, args = PR.complex_multivariate_normal, dict(mean=m, cov=mat(M))
                            else:
                                want = lambda: ST.multivariate_t_gen().rvs(rm, rc, df, size, rs())
                                D, args = PR.complex_multivariate_t, dict(loc=m, shape=mat(M), df=df)
                            w = want()
                            same_draws("direct call", D.rvs(*args.values(), size, rs()), w, n, P, cplx)
                            same_draws("direct call by name", D.rvs(**args, size=size, random_state=rs()), w, n, P, cplx)
                            fr = D(**args)
                            same_draws("frozen model", fr.rvs(size, rs()), w, n, P, cplx)
                            same_draws("frozen model, second call", fr.rvs(size=size, random_state=rs()), w, n, P, cplx)
