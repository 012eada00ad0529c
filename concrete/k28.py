from h import *
from robuststats.utils import generation_data as G


def seeded(seed, f, *a, **k):
    np.random.seed(seed)
    return f(*a, **k)


def uniform(u, msg, **kw):
    """Kolmogorov-Smirnov distance to the uniform law within 7 standard scales"""
    u = np.sort(np.ravel(u))
    n = len(u)
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    ok(d < 2.6 / np.sqrt(n), msg, ks=d * np.sqrt(n), n=n, **kw)


@case("C28", 60)
def covariances(rng):
    p = int(pick(rng, [1, 2, 3, 4, 7]))
    cplx = bool(rng.integers(2))
    f = G.generate_complex_covariance if cplx else G.generate_covariance
    seed = int(rng.integers(2 ** 31))
    s = seeded(seed, f, p)
    ok(s.shape == (p, p) and np.iscomplexobj(s) == cplx, "shape and dtype", s=s)
    close(s, s.conj().T, "Hermitian", rtol=1e-12)
    w = la.eigvalsh(herm(s))
    ok(np.all(w > (1 - 1e-9 if cplx else -1e-12)) and np.all(w < (2 + 1e-9 if cplx else 1 + 1e-9)), "eigenvalues in the stated range", w=w)
    for t in (seeded(seed, f, p, True), seeded(seed, f, p, unit_det=True)):
        ok(t.shape == (p, p), "shape of the unit-determinant matrix")
        if w.min() > 1e-6:
            close(np.real(la.det(t)), 1.0, "unit determinant", rtol=1e-6, p=p)
            close(t * s[0, 0], s * t[0, 0], "multiple of the unscaled matrix", rtol=1e-7)
    close(seeded(seed, f, p, False), s, "unit_det=False")


@case("C28", 4)
def eigenvalue_law(rng):
    p = int(pick(rng, [1, 2, 3, 5]))
    cplx = bool(rng.integers(2))
    np.random.seed(int(rng.integers(2 ** 31)))
    if cplx:
        u = [la.eigvalsh(G.generate_complex_covariance(p)) - 1 for _ in range(400 // p)]
    else:
        u = [np.sqrt(np.abs(la.eigvalsh(G.generate_covariance(p)))) for _ in range(400 // p)]
    uniform(np.concatenate(u), "eigenvalue law", p=p, cplx=cplx)


@case("C28", 30)
def stiefel(rng):
    p = int(rng.integers(1, 7))
    k = int(rng.integers(1, p + 1))
    for f, c in ((G.generate_stiefel, False), (G.generate_complex_stiefel, True)):
        np.random.seed(int(rng.integers(2 ** 31)))
        Q = f(p, k)
        ok(Q.shape == (p, k), "shape", Q=Q, p=p, k=k)
        close(Q.conj().T @ Q, np.eye(k), "orthonormal columns", rtol=1e-10)


@case("C28", 12)
def textures(rng):
    N = int(pick(rng, [1, 2, 17]))
    np.random.seed(int(rng.integers(2 ** 31)))
    for f in (G.generate_textures_gamma_dist, G.generate_textures_lognormal_dist):
        t = f(N)
        ok(t.shape == (N, 1) and np.all(t >= 0), "shape", t=t)
    n = 20000
    nu = float(pick(rng, [1, 2.5, 10, 0.7]))
    t = G.generate_textures_gamma_dist(n, nu)
    ok(abs(t.mean() - 1) < 6 / np.sqrt(nu * n), "gamma textures have mean one", mean=t.mean(), nu=nu)
    ok(abs(t.var() * nu - 1) < 0.25 * max(1, 1 / nu), "gamma textures have shape nu", var=t.var(), nu=nu)
    v = float(pick(rng, [0.05, 0.2, 0.5, 1.]))
    t = G.generate_textures_lognormal_dist(n, v)
    ok(abs(t.mean() - 1) < 6 * np.sqrt((np.exp(v) - 1) / n), "log-normal textures have mean one", mean=t.mean(), v=v)


def white(W, p, N, cplx, msg):
    """second moments of a (p, N) array of standard white noise, N large"""
    ok(W.shape == (p, N), msg + ": shape", shape=W.shape)
    tol = 7 / np.sqrt(N)
    C = W @ W.conj().T / N
    ok(np.max(np.abs(C - np.eye(p))) < tol * 1.5, msg + ": covariance", C=C)
    ok(np.max(np.abs(W.mean(1))) < tol, msg + ": mean")
    if cplx:
        ok(np.max(np.abs(W @ W.T / N)) < 1.5 * tol, msg + ": circular", C=W @ W.T / N)
    D = W[:, 1:] @ W[:, :-1].conj().T / N
    ok(np.max(np.abs(D)) < tol * 1.5, msg + ": independent columns", D=D)


@case("C28", 40)
def gaussian(rng):
    p, N = int(pick(rng, [1, 2, 3, 5])), int(pick(rng, [1, 2, 5, 3000]))
    cplx = bool(rng.integers(2))
    S = layout(rng, randpd(rng, p, cplx))
    f = G.sample_complex_normal_distribution if cplx else G.sample_normal_distribution
    f0 = G.sample_complex_standard_normal_distribution if cplx else G.sample_standard_normal_distribution
    seed = int(rng.integers(2 ** 31))
    ro = RO(S)
    X = seeded(seed, f, N, S)
    I = np.eye(p, dtype=S.dtype)
    W = seeded(seed, f, N, I)
    ok(X.shape == (p, N), "shape", shape=X.shape)
    close(X, spec(S, np.sqrt) @ W, "samples are sqrtm(cov) times the white noise of the same seed", rtol=1e-7)
    ro.check()
    if N > 1000:
        white(W, p, N, cplx, "samples of identity covariance")
        white(seeded(seed, f0, p, N), p, N, cplx, "standard samples")


@case("C28", 60)
def compound(rng):
    p, N = int(pick(rng, [1, 2, 3, 5])), int(pick(rng, [1, 2, 5, 30]))
    cplx = bool(rng.integers(2))
    S = layout(rng, randpd(rng, p, cplx))
    tau = rng.gamma(1., size=(N, 1) if rng.integers(2) else (N,))
    f = G.sample_complex_compound_distribution if cplx else G.sample_compound_distribution
    g = G.sample_complex_normal_distribution if cplx else G.sample_normal_distribution
    seed = int(rng.integers(2 ** 31))
    ro = RO(S, tau)
    X = seeded(seed, f, tau, S)
    W = seeded(seed, f, np.ones_like(tau), np.eye(p, dtype=S.dtype))
    ok(X.shape == (p, N), "shape", shape=X.shape)
    close(X, np.sqrt(tau).reshape(1, -1) * (spec(S, np.sqrt) @ W), "column n is sqrt(tau_n) times the sample of the same seed", rtol=1e-7)
    ro.check()


@case("C28", 40)
def uuh(rng):
    p, k, N = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(pick(rng, [1, 2, 7, 3000]))
    cplx = bool(rng.integers(2))
    U = layout(rng, randn(rng, p, k, cplx=cplx))
    tau = rng.gamma(1., size=(N, 1) if rng.integers(2) else (N,))
    f = G.sample_complex_tau_UUH_distribution if cplx else G.sample_tau_UUH_distribution
    seed = int(rng.integers(2 ** 31))
    ro = RO(U, tau)
    X = seeded(seed, f, tau, U)
    ok(X.shape == (p, N), "shape", shape=X.shape)
    z = seeded(seed, f, np.zeros_like(tau), U)
    # response to each factor: w from unit columns
    W = np.zeros((k, N), dtype=U.dtype)
    for j in range(k):
        E = np.zeros_like(U)
        E[0, j] = 1
        W[j] = (seeded(seed, f, np.ones_like(tau), E) - z)[0]
    close(X, z + np.sqrt(tau).reshape(1, -1) * (U @ W), "samples are sqrt(tau_n) U w_n + z_n", rtol=1e-7)
    if N > 1000:
        white(np.concatenate([W, z]), p + k, N, cplx, "w and z")
    ro.check()


@case("C28", 10)
def dtypes(rng):
    p, n = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    tau = np.ones((n, 1))
    raises(AssertionError, lambda: G.sample_normal_distribution(n, randpd(rng, p, True)), "complex covariance for real samples")
    raises(AssertionError, lambda: G.sample_complex_normal_distribution(n, randpd(rng, p, False)), "real covariance for complex samples")
    raises(AssertionError, lambda: G.sample_compound_distribution(tau, randpd(rng, p, True)), "complex covariance for real compound samples")
    raises(AssertionError, lambda: G.sample_complex_compound_distribution(tau, randpd(rng, p, False)), "real covariance for complex compound samples")
