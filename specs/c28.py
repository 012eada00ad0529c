from rsv.spec import *
from . import wick


def register(L):
    C = check("C28")
    m = L.module("robuststats.utils.generation_data")
    one = const(1)

    def fresh2(shape):
        return [toP(fresh(P_(s), "q")) for s in shape]

    # -------------------------------------------------------------- covariances
    for real in (True, False):
        fn = (lambda *a, **k: m.generate_covariance(*a, **k)) if real else (lambda *a, **k: m.generate_complex_covariance(*a, **k))
        kd = "real" if real else "complex"
        law = (lambda u: mul(u, u)) if real else (lambda u: one + u)
        for pn in ("p >= 2", "p = 1"):
            @C.scenario("generate_covariance, %s, %s" % (kd, pn))
            def _(fn=fn, real=real, law=law, pn=pn):
                p = dim("p", 2) if pn != "p = 1" else 1
                s = fn(p)
                if not shape_eq("square", s, [p, p]):
                    return
                if pn != "p = 1":
                    RT.oblige("dtype", s.kind == ("float" if real else "complex"), s.kind)
                us = [d for d in wick.draws("uniform01") if len(d[3]) in (1, 2) and same(d[3][0], P_(p))]
                if not RT.oblige("the eigenvalues are functions of one uniform draw of size p", len(us) >= 1, "%r" % (wick.draws(),)):
                    return
                nm = PL.short(us[0][0])
                u = lambda i: N.nfac(N.At(nm, (i,) + (toP(0),) * (len(us[0][3]) - 1), False, True, True))
                i, j = fresh2([p, p])
                z = toP(0)
                if pn == "p = 1":
                    RT.oblige_eq("the only entry is the eigenvalue", s.at([z, z]), law(u(z)))
                    return
                RT.oblige_eq("symmetric / Hermitian", s.at([i, j]), conj(s.at([j, i])))
                # spectral characterisation: trace of a generic function of the matrix
                M = Mat(lambda a, b: s.at([a, b]), p)
                for gn, g in (("power 1", N.LAM), ("power 2", npow(N.LAM, 2)), ("inverse", npow(N.LAM, -1)), ("logarithm", N.mk_log(N.LAM)), ("square root", npow(N.LAM, half)),
                              ("exponential", N.mk_exp(N.LAM))):
                    RT.oblige_eq("trace of the %s is the sum over the eigenvalue law" % gn, S(p, lambda t: N.mk_sp(g, M, t, t)), S(p, lambda t: N.gsub(g, law(u(t)))))
                RT.oblige("positive definite", M.pd, "")

            @C.scenario("unit determinant, %s, %s" % (kd, pn))
            def _(fn=fn, real=real, law=law, pn=pn):
                p = dim("p", 2) if pn != "p = 1" else 1
                st = np._rng().state()
                s0 = fn(p)
                np._rng().set(st)
                s = fn(p, True)
                np._rng().set(st)
                s2 = fn(p, unit_det=True)
                if not shape_eq("square", s, [p, p]):
                    return
                eq("keyword form", s2, s)
                i, j = fresh2([p, p])
                M = Mat(lambda a, b: s.at([a, b]), p)
                RT.oblige_eq("determinant one", N.mk_det(M), one)
                k, l = fresh2([p, p])
                RT.oblige_eq("a multiple of the unscaled matrix of the same draws", mul(s.at([i, j]), s0.at([k, l])), mul(s.at([k, l]), s0.at([i, j])))
                RT.oblige_eq("symmetric / Hermitian", s.at([i, j]), conj(s.at([j, i])))

        for rel in ("k < p", "k = p"):
            @C.scenario("generate_stiefel, %s, %s" % (kd, rel))
            def _(real=real, rel=rel):
                k = dim("k")
                p = k + dim("d") if rel == "k < p" else k
                f = m.generate_stiefel if real else m.generate_complex_stiefel
                Q = f(p, k)
                if rel == "k = p" and isinstance(Q, Arr) and Q.ndim == 2 and same(Q.vshape[0], 1):
                    shape_eq("Q", Q, [1, 1])
                    e = Q.at([toP(0), toP(0)])
                    RT.oblige_eq("of modulus one", mul(e, conj(e)), one)
                    return
                if shape_eq("Q", Q, [p, k]):
                    i, j = fresh2([k, k])
                    RT.oblige_eq("orthonormal columns", S(p, lambda t: mul(conj(Q.at([t, i])), Q.at([t, j]))), delta(i, j))

    # -------------------------------------------------------------- textures
    for nm, f, args, dist in (("gamma", "generate_textures_gamma_dist", ("nu",), "gamma"), ("log-normal", "generate_textures_lognormal_dist", ("variance",), "lognorm")):
        for how in ("given", "keyword", "default"):
            @C.scenario("%s textures, parameter %s" % (nm, how))
            def _(f=f, args=args, how=how, nm=nm):
                Nn = dim("N")
                v = scal(args[0], pos=True)
                g = getattr(m, f)
                t = g(Nn, v) if how == "given" else (g(Nn, **{args[0]: v}) if how == "keyword" else g(Nn))
                if not shape_eq("textures", t, [Nn, 1]):
                    return
                i, j = fresh2([Nn, Nn])
                z = toP(0)
                e = wick.mean1(t.at([i, z]))
                RT.oblige("mean one", e is not None and rt.prove_eq(e, one), "mean %s of %s" % (N.show(e) if e is not None else "unknown", N.show(t.at([i, z]))))
                ds = [d for d in wick.draws() if d[1] in (("gamma",) if nm == "gamma" else ("lognorm", "lognormal"))]
                RT.oblige("one draw of the stated law per texture", len(ds) == 1 and len(wick.draws()) == 1, "%r" % (wick.draws(),))
                RT.oblige("positive", N.ispos(t.at([i, z])), "")
                if len(ds) == 1 and how != "default" and nm == "gamma":
                    RT.oblige_eq("shape parameter nu", ds[0][2][0], nfof(v))
                if len(ds) == 1:
                    # distinct textures come from distinct entries of the draw (independence)
                    d = ds[0]
                    ats = [g for T in t.at([i, z]).t for g, e in T.facs if isinstance(g, N.At) and g.name == PL.short(d[0])]
                    RT.oblige("independent entries", len(ats) == 1 and i.key in [p.key for p in ats[0].idx], "%s" % N.show(t.at([i, z])))

    # -------------------------------------------------------------- white noise and Gaussian samples
    def second_order(name, X, p, Nn, cov, circular):
        """X (p x N): E X = 0, E x_n x_m^H = delta_nm cov_n, and E x_n x_m^T = 0 in the circular case"""
        if not shape_eq(name, X, [p, Nn]):
            return False
        i, j, a, b = fresh2([p, p, Nn, Nn])
        x, y = X.at([i, a]), X.at([j, b])
        e = wick.wick2(mul(x, conj(y)))
        want = mul(N.delta(a, b), cov(i, j, a))
        ok = e is not None and rt.prove_eq(e, want)
        RT.oblige(name + ": covariance", ok, "E x x^H = %s, stated %s" % (N.show(e) if e is not None else "unknown", N.show(want)))
        if circular:
            e = wick.wick2(mul(x, y))
            RT.oblige(name + ": circular", e is not None and rt.prove_eq(e, const(0)), "E x x^T = %s" % (N.show(e) if e is not None else "unknown"))
        return ok

    def root_applied(name, X, p, Nn, root, p2=None, scale=lambda n: one):
        """the samples are root times a white array read from the generator: E x_in w_jm = c delta_nm root_ij for each draw w, sum of |c|^2 = 1"""
        p2 = p2 or p
        ds = [d for d in wick.draws("normal01")]
        tot = const(0)
        i, a = fresh2([p, Nn])
        j, b = fresh2([p2, Nn])
        for d in ds:
            nm = PL.short(d[0])
            if len(d[3]) == 2 and same(d[3][0], P_(p2)) and same(d[3][1], P_(Nn)):
                w = N.nfac(N.At(nm, (j, b), False, True))
            elif len(d[3]) == 2 and same(d[3][1], P_(p2)) and same(d[3][0], P_(Nn)):
                w = N.nfac(N.At(nm, (b, j), False, True))
            else:
                continue
            e = wick.wick2(mul(X.at([i, a]), w))
            if e is None:
                return RT.oblige(name, False, "not linear in the draws")
            ok = False
            for c in (const(1), const(1j), npow(const(2), -half), mul(const(1j), npow(const(2), -half)), const(-1), -npow(const(2), -half), mul(const(-1j), npow(const(2), -half))):
                if rt.prove_eq(e, mul(c, mul(scale(a), mul(N.delta(a, b), root(i, j))))):
                    ok = True
                    tot = tot + mul(c, conj(c))
            if not ok:
                return RT.oblige(name, False, "response to the draw: %s" % N.show(e))
        return RT.oblige_eq(name + " (total power)", tot, one)

    @C.scenario("white noise, real")
    def _():
        p, Nn = dim("p"), dim("N")
        second_order("white", m.sample_standard_normal_distribution(p, Nn), p, Nn, lambda i, j, a: N.delta(i, j), False)

    @C.scenario("white noise, complex")
    def _():
        p, Nn = dim("p"), dim("N")
        second_order("white", m.sample_complex_standard_normal_distribution(p, Nn), p, Nn, lambda i, j, a: N.delta(i, j), True)

    for real in (True, False):
        kd = "real" if real else "complex"
        kk = "float" if real else "complex"
        nf_ = "normal" if real else "complex_normal"
        cf = "compound" if real else "complex_compound"
        tf = "tau_UUH" if real else "complex_tau_UUH"

        @C.scenario("Gaussian samples, %s" % kd)
        def _(real=real, nf_=nf_):
            p, Nn = dim("p"), dim("N")
            M = msym("Sigma", p, "hpd", real)
            X = getattr(m, "sample_%s_distribution" % nf_)(Nn, mat(M))
            if second_order("samples", X, p, Nn, lambda i, j, a: M.at(i, j), not real):
                root_applied("sqrtm(cov) applied to white noise", X, p, Nn, powm(M, half))

        for sh in ("(N, 1)", "(N,)"):
            @C.scenario("compound samples, %s, tau of shape %s" % (kd, sh))
            def _(real=real, cf=cf, sh=sh):
                p, Nn = dim("p"), dim("N")
                M = msym("Sigma", p, "hpd", real)
                tau = sym("tau", [Nn, 1] if sh == "(N, 1)" else [Nn], pos=True)
                t = (lambda a: tau.at([a, toP(0)])) if sh == "(N, 1)" else (lambda a: tau.at([a]))
                X = getattr(m, "sample_%s_distribution" % cf)(tau, mat(M))
                if second_order("samples", X, p, Nn, lambda i, j, a: mul(t(a), M.at(i, j)), not real):
                    root_applied("column n is sqrt(tau_n) sqrtm(cov) times white noise", X, p, Nn, powm(M, half), scale=lambda a: npow(t(a), half))

            @C.scenario("tau-UUH samples, %s, tau of shape %s" % (kd, sh))
            def _(real=real, tf=tf, sh=sh, kk=kk):
                p, k, Nn = dim("p"), dim("k"), dim("N")
                U = sym("U", [p, k], kk)
                tau = sym("tau", [Nn, 1] if sh == "(N, 1)" else [Nn], pos=True)
                t = (lambda a: tau.at([a, toP(0)])) if sh == "(N, 1)" else (lambda a: tau.at([a]))
                X = getattr(m, "sample_%s_distribution" % tf)(tau, U)
                second_order("samples", X, p, Nn, lambda i, j, a: N.delta(i, j) + mul(t(a), S(k, lambda s: mul(U.at([i, s]), conj(U.at([j, s]))))), not real)

    @C.scenario("wrong dtype rejected")
    def _():
        n, p = dim("n"), dim("p")
        tau = sym("tau", [n, 1], pos=True)
        raises("complex covariance for real samples", AssertionError, lambda: m.sample_normal_distribution(n, hpd("A", p)))
        raises("real covariance for complex samples", AssertionError, lambda: m.sample_complex_normal_distribution(n, hpd("A", p, True)))
        raises("complex covariance for real compound", AssertionError, lambda: m.sample_compound_distribution(tau, hpd("A", p)))
        raises("real covariance for complex compound", AssertionError, lambda: m.sample_complex_compound_distribution(tau, hpd("A", p, True)))
