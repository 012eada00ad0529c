from h import *
from robuststats.models import probability as P
from scipy.stats import multivariate_normal, multivariate_t


@case("C04", 150)
def sampling(rng):
    p = int(pick(rng, [1, 2, 2, 3, 5]))
    size = int(pick(rng, [1, 2, 3, 7, 20]))
    df = float(pick(rng, [.7, 1, 2, 3, 12.5]))
    cm, cc = bool(rng.integers(2)), bool(rng.integers(2))
    m = randn(rng, p, cplx=cm)
    C = randpd(rng, p, cc, cond=20, scale=pick(rng, [1, .01, 40.]))
    nomean = rng.integers(4) == 0
    if nomean:
        m = None
    ro = RO(C, m)
    seed = int(rng.integers(2 ** 31))
    cplx = cc or (cm and not nomean)
    mm = np.zeros(p) if m is None else m
    if cplx:
        M, K = stack_real(mm.astype(complex)), cov_real(C.astype(complex))
    else:
        M, K = mm, C
    asint = bool(rng.integers(2))
    rs = (lambda: seed) if asint else (lambda: np.random.RandomState(seed))
    for kind in ("normal", "t"):
        if kind == "normal":
            base = multivariate_normal.rvs(M, K, size=size, random_state=rs())
            outs = [P.complex_multivariate_normal.rvs(m, C, size, rs()), P.complex_multivariate_normal(m, C).rvs(size, rs()),
                    P.complex_multivariate_normal.rvs(mean=m, cov=C, size=size, random_state=rs()), P.complex_multivariate_normal(mean=m, cov=C).rvs(size=size, random_state=rs())]
        else:
            base = multivariate_t.rvs(M, K, df, size=size, random_state=rs())
            outs = [P.complex_multivariate_t.rvs(m, C, df, size, rs()), P.complex_multivariate_t(m, C, df).rvs(size, rs()),
                    P.complex_multivariate_t.rvs(loc=m, shape=C, df=df, size=size, random_state=rs()), P.complex_multivariate_t(loc=m, shape=C, df=df).rvs(size=size, random_state=rs())]
        if cplx:
            # one draw of the real model is squeezed by scipy to a vector of length 2p
            b = np.asarray(base)
            want = b[..., :p] + 1j * b[..., p:]
        else:
            want = base
        for o in outs:
            ok(np.iscomplexobj(o) == cplx, kind + ": complex iff the model is")
            exact(o, want, "%s rvs (size %d, p %d)" % (kind, size, p))
            if cplx and size > 1:
                ok(o.shape == (size, p), kind + ": shape", shape=o.shape)
    # the global random state is used when none is given
    np.random.seed(seed % 1000)
    a = P.complex_multivariate_normal(m, C).rvs(size)
    np.random.seed(seed % 1000)
    b = multivariate_normal.rvs(M, K, size=size)
    exact(a, (b[..., :p] + 1j * b[..., p:]) if cplx else b, "global state")
    ro.check()


@case("C04", 6)
def moments(rng):
    """location and scatter in the model sense"""
    p = int(rng.integers(1, 4))
    m = randn(rng, p, cplx=True) * 3
    C = randpd(rng, p, True, cond=5, scale=1)
    X = P.complex_multivariate_normal(m, C).rvs(40000, int(rng.integers(2 ** 31)))
    X = X.reshape(-1, p)
    Y = X - m
    s = np.real(np.trace(C)) / p
    close(X.mean(0), m, "mean", rtol=0, atol=.06 * np.sqrt(s) + .02)
    close(Y.T @ Y.conj() / len(Y), C, "covariance E[y y^H]", rtol=0, atol=.1 * s)
    close(Y.T @ Y / len(Y), 0 * C, "circular", rtol=0, atol=.1 * s)
