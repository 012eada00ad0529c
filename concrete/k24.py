from h import *
from scipy.special import gammaln
from robuststats.estimation import structured as ST


def lik(X, m, C, df):
    p = C.shape[0]
    Y = X - m
    d = np.real(np.einsum("ni,ij,nj->n", Y.conj(), la.inv(C), Y))
    c = gammaln(df / 2 + p) - gammaln(df / 2) - p * np.log(df * np.pi) + p * np.log(2)
    return np.sum(c - np.linalg.slogdet(C)[1] - (df / 2 + p) * np.log1p(2 * d / df))


def loc(rng, p):
    return pick(rng, [None, np.zeros(p), rng.normal(size=p), rng.normal(size=p) + 1j * rng.normal(size=p)])


def prob(rng):
    a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    X = data(rng, int(pick(rng, [1, 2, 5, 12])), a * b, bool(rng.integers(4)))
    return a, b, X, loc(rng, a * b), float(pick(rng, [.5, 1, 3, 10, 200])), randpd(rng, a, True, cond=20), randpd(rng, b, True, cond=20)


@case("C24", 80)
def cost(rng):
    a, b, X, m, df, A, B = prob(rng)
    f = ST._generate_cost_function_kronecker_student(X, df, *(() if m is None else (m,)))
    for _ in range(2):
        v = f(A, B)
        close(v, -lik(X, 0 if m is None else m, np.kron(A, B), df), "cost", rtol=1e-8, atol=1e-6)
        ok(np.isrealobj(v) and np.ndim(v) == 0, "a real number")


def herm(rng, p):
    E = rng.normal(size=(p, p)) + 1j * rng.normal(size=(p, p))
    return E + E.conj().T


def ratio(A, E, rng):
    return 1e-4 / (1 + la.norm(la.inv(A)) * la.norm(E))


@case("C24", 80)
def gradient(rng):
    a, b, X, m, df, A, B = prob(rng)
    g = ST._generate_egrad_function_kronecker_student(X, a, b, df, m)
    mm = 0 if m is None else m
    G = g(A, B)
    ok(len(G) == 2, "two parts")
    for k, M in ((0, A), (1, B)):
        ok(np.shape(G[k]) == M.shape, "shape of the gradient")
        close(G[k], G[k].conj().T, "Hermitian gradient", rtol=1e-8)
        E = herm(rng, len(M))
        h = ratio(M, E, rng)
        at = lambda s: -lik(X, mm, np.kron(A + s * E if k == 0 else A, B + s * E if k == 1 else B), df)
        fd = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
        scale = la.norm(G[k]) * la.norm(E) + abs(at(0)) * 1e-11 / h
        close(np.real(np.trace(G[k].conj().T @ E)), fd, "directional derivative, part %d" % k, rtol=0, atol=1e-6 * scale + 1e-7)
    for k in (0, 1):
        close(g(A, B)[k], G[k], "second call", rtol=1e-12)


@case("C24", 14)
def fit(rng):
    a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    n = int(rng.integers(3 * a * b + 6, 40 + a * b))
    X = data(rng, n, a * b, True) + pick(rng, [0, 1, 2 - 1j])
    df = float(pick(rng, [1, 3, 10]))
    cent = bool(rng.integers(2))
    e = ST.KroneckerStudent(a, b, df, assume_centered=cent, store_precision=bool(rng.integers(2)))
    seen = []
    real = ST.ConjugateGradient.solve

    def solve(self, problem, x=None, **k):
        seen.append((problem, x))
        if rng.integers(2):
            return real(self, problem, x=x, **k)
        return randpd(rng, a, True, cond=10), randpd(rng, b, True, cond=10)
    init = (randpd(rng, a, True, cond=10), randpd(rng, b, True, cond=10)) if rng.integers(2) else None
    if init is not None:
        init = (init[0] / np.real(la.det(init[0])) ** (1 / a), init[1])
    ST.ConjugateGradient.solve = solve
    try:
        e.fit(X, **({} if init is None else {"init": init}))
    finally:
        ST.ConjugateGradient.solve = real
    if seen:
        pb, x = seen[0]
        m0 = 0 if cent else X.mean(0)
        for k, s in ((0, a), (1, b)):
            close(x[k], np.eye(s) if init is None else init[k], "start, factor %d" % k, rtol=1e-12)
        A, B = randpd(rng, a, True, cond=10), randpd(rng, b, True, cond=10)
        close(pb.cost((A, B)), -lik(X, m0, np.kron(A, B), df), "cost handed to the optimiser", rtol=1e-8, atol=1e-6)
        G = pb.egrad((A, B))
        for k, M in ((0, A), (1, B)):
            E = herm(rng, len(M))
            h = ratio(M, E, rng)
            at = lambda s: -lik(X, m0, np.kron(A + s * E if k == 0 else A, B + s * E if k == 1 else B), df)
            fd = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
            scale = la.norm(G[k]) * la.norm(E) + abs(at(0)) * 1e-11 / h
            close(np.real(np.trace(G[k].conj().T @ E)), fd, "gradient handed to the optimiser, part %d" % k, rtol=0, atol=1e-6 * scale + 1e-7)
    m = np.zeros(a * b) if cent else X.mean(0)
    close(e.location_, m, "location", rtol=1e-12, atol=1e-14)
    K = np.kron(e.A_, e.B_)
    close(e.covariance_, K, "covariance_ = A_ kron B_", rtol=1e-12)
    ok(e.A_.shape == (a, a) and e.B_.shape == (b, b), "sizes of the factors")
    T = data(rng, int(pick(rng, [1, 2, 7])), a * b, True)
    snap = {k: np.array(getattr(e, k)) for k in ("A_", "B_", "covariance_", "location_")}
    for _ in range(2):
        v = e.score(T)
        close(v, lik(T, m, K, df), "score", rtol=1e-7, atol=1e-6)
    for k, w in snap.items():
        exact(getattr(e, k), w, "score leaves %s as it was" % k)
