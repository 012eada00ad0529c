from h import *
from robuststats.models import probability as P
from scipy.stats import multivariate_normal, multivariate_t
from scipy.special import gammaln


def inputs(rng):
    p = int(pick(rng, [1, 1, 2, 2, 3, 4, 6, 9]))
    n = int(pick(rng, [1, 2, 3, 5, 11]))
    m = randn(rng, p, cplx=True) * pick(rng, [1, 10, 0])
    C = randpd(rng, p, True, cond=10 ** rng.uniform(0.1, 2), scale=pick(rng, [1, 1, 1e-2, 50.]))
    x = m + randn(rng, n, p, cplx=True) * np.sqrt(np.real(np.trace(C)) / p) * pick(rng, [.3, 1, 3])
    df = float(pick(rng, [.3, 1, 2, 3, 7.5, 30, 1000]))
    return n, p, m, C, x, df


def quad(x, m, C):
    y = x - m
    return np.real(np.einsum("ni,ij,nj->n", y.conj(), la.inv(C), y))


def lnormal(x, m, C):
    return -C.shape[0] * np.log(np.pi) - np.log(np.real(la.det(C))) - quad(x, m, C)


def lt(x, m, C, df):
    p = C.shape[0]
    # real t with 2p dimensions, scatter cov_real(C): log det = 2 log det C - 2p log 2
    return gammaln((df + 2 * p) / 2) - gammaln(df / 2) - p * np.log(df * np.pi) - np.log(np.real(la.det(C))) + p * np.log(2) \
        - (df + 2 * p) / 2 * np.log1p(2 * quad(x, m, C) / df)


def cmp(f, want, msg):
    close(f, want, msg, rtol=1e-7, atol=1e-7)
    ok(np.isrealobj(f), msg + ": real")


def check_all(rng, x, m, C, df, want_n, want_t, kw=True):
    """m None: missing location"""
    n = len(x)
    ro = RO(*[a for a in (x, m, C) if a is not None])
    sq = (lambda v: v) if n > 1 else np.squeeze      # scipy squeezes one sample to a scalar
    wn, wt = sq(want_n), sq(want_t)
    N, T = P.complex_multivariate_normal, P.complex_multivariate_t
    if m is None:
        cmp(N.logpdf(x, cov=C), wn, "normal logpdf")
        cmp(N(cov=C).logpdf(x), wn, "frozen normal logpdf")
        cmp(N.pdf(x, cov=C), np.exp(wn), "normal pdf")
        cmp(T.logpdf(x, shape=C, df=df), wt, "t logpdf")
        cmp(T(shape=C, df=df).logpdf(x), wt, "frozen t logpdf")
        cmp(T.pdf(x, shape=C, df=df), np.exp(wt), "t pdf")
        cmp(T(shape=C, df=df).pdf(x), np.exp(wt), "frozen t pdf")
        cmp(N(cov=C).pdf(x), np.exp(wn), "frozen normal pdf")
    else:
        cmp(N.logpdf(x, m, C), wn, "normal logpdf")
        cmp(N(m, C).logpdf(x), wn, "frozen normal logpdf")
        cmp(N.pdf(x, mean=m, cov=C), np.exp(wn), "normal pdf")
        cmp(N(mean=m, cov=C).pdf(x), np.exp(wn), "frozen normal pdf")
        cmp(T.logpdf(x, m, C, df), wt, "t logpdf")
        cmp(T(m, C, df).logpdf(x), wt, "frozen t logpdf")
        cmp(T.pdf(x, loc=m, shape=C, df=df), np.exp(wt), "t pdf")
        cmp(T(loc=m, shape=C, df=df).pdf(x), np.exp(wt), "frozen t pdf")
    ro.check()


@case("C03", 80)
def complex_model(rng):
    n, p, m, C, x, df = inputs(rng)
    if rng.integers(3) == 0:
        x = x - m
        check_all(rng, x, None, C, df, lnormal(x, 0 * m, C), lt(x, 0 * m, C, df))
    else:
        check_all(rng, x, m, C, df, lnormal(x, m, C), lt(x, m, C, df))


@case("C03", 60)
def mixed_model(rng):
    n, p, m, C, x, df = inputs(rng)
    if rng.integers(2):
        Cr = np.real(C)
        check_all(rng, x, m, Cr, df, lnormal(x, m, Cr), lt(x, m, Cr, df))
    else:
        mr = np.real(m)
        check_all(rng, x, mr, C, df, lnormal(x, mr, C), lt(x, mr, C, df))


@case("C03", 60)
def real_data_complex_model(rng):
    n, p, m, C, x, df = inputs(rng)
    xr = np.real(x)
    check_all(rng, xr, m, C, df, lnormal(xr, m, C), lt(xr, m, C, df))


@case("C03", 80)
def real_model(rng):
    n, p, m, C, x, df = inputs(rng)
    m, C = np.real(m), randpd(rng, p, False, cond=20)
    xr = np.real(x)
    wn = np.atleast_1d(multivariate_normal(m, C).logpdf(xr))
    wt = np.atleast_1d(multivariate_t(m, C, df).logpdf(xr))
    if p == 1:
        wn, wt = wn.reshape(n), wt.reshape(n)
    check_all(rng, xr if rng.integers(2) else x, m, C, df, wn, wt)


@case("C03", 20)
def defaults(rng):
    n = 4
    x = randn(rng, n)
    cmp(P.complex_multivariate_normal.logpdf(x), multivariate_normal.logpdf(x), "default normal")
    cmp(P.complex_multivariate_normal().logpdf(x), multivariate_normal.logpdf(x), "default frozen normal")
    cmp(P.complex_multivariate_t.logpdf(x, df=3), multivariate_t.logpdf(x, df=3), "default t")
    cmp(P.complex_multivariate_t(df=3).logpdf(x), multivariate_t(df=3).logpdf(x), "default frozen t")


@case("C03", 30)
def one_sample(rng):
    """a single sample given as a vector (p > 1)"""
    n, p, m, C, x, df = inputs(rng)
    if p == 1:
        raise Skip()
    v = x[0]
    cmp(P.complex_multivariate_normal(m, C).logpdf(v), lnormal(x[:1], m, C)[0], "one sample")
    cmp(P.complex_multivariate_t(m, C, df).logpdf(v), lt(x[:1], m, C, df)[0], "one sample")
