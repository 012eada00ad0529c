"""reference fixed-point iteration and its contract, shared by C08, C09, C10 and C11"""
from h import *


def qf(X, S):
    return np.real(np.einsum("ni,ni->n", X.conj(), la.solve(S, X.T).T))


def step(X, S, w):
    d = qf(X, S)
    u = w(d)
    return (X.T * u) @ X.conj() / len(X)


def reference(X, w, S0, tol, iter_max):
    """k-th iterate, error, count; also how close a stopping decision was to a tie"""
    S = (X.T @ X.conj()) / len(X) if S0 is None else S0
    if np.isrealobj(X):
        S = np.real(S) if S0 is None else S
    k, err, tie = 0, np.inf, np.inf
    while err > tol and k < iter_max:
        Sn = step(X, S, w)
        err = la.norm(Sn - S) / la.norm(S)
        S = Sn
        k += 1
        if abs(err - tol) <= 1e-5 * tol + 2e-12:
            tie = 0                     # a stopping decision that rounding may turn
    return S, err, k, tie


def problem(rng, cplx, small=False):
    p = int(pick(rng, [1, 2, 2, 3, 4, 5]))
    n = int(pick(rng, [p + 2, 2 * p + 1, 3 * p + 3, 30, 60]))
    X = data(rng, n, p, cplx)
    r = rng.integers(8)
    if r == 0:
        X = np.round(X / np.std(X) * 4)
        if la.matrix_rank(X) < p:
            raise Skip()
        if not cplx:
            X = X.astype(int) if np.all(np.abs(X).sum(1) > 0) else X
    if np.any(np.abs(X).sum(1) == 0):
        raise Skip()
    X = layout(rng, X)
    init = None
    if rng.integers(2):
        init = layout(rng, randpd(rng, p, cplx, cond=10 ** rng.uniform(0, 1.5), scale=pick(rng, [1, 1, .1, 20.])))
        r = rng.integers(5)
        if r == 0:
            init = np.eye(p).astype(init.dtype)
        if r == 1 and cplx:
            init = np.real(init)            # real start for complex data
            init = herm(init)
    # tolerance: absent, loose, tight, zero; limit: 0, 1, few, many
    tol = float(pick(rng, [1e-4, 1e-4, .5, .05, 1e-2, 1e-7, 0, 3., 1e-10]))
    iter_max = int(pick(rng, [0, 1, 1, 2, 3, 5, 10, 30, 100]))
    return n, p, X, init, tol, iter_max


def cmp(got, want, msg, cplx, p):
    S, err, k, tie = want
    gS, gerr, gk = got
    if tie < 1e-5:
        raise Skip()
    ok(gS.shape == (p, p), msg + ": shape", shape=gS.shape)
    ok(gk == k, msg + ": iteration count", got=gk, want=k)
    close(gS, S, msg + ": estimate", rtol=1e-7 * max(1, la.cond(S) / 100))
    if k == 0:
        ok(np.isinf(gerr) and gerr > 0, msg + ": error before any iteration", got=gerr)
    else:
        close(gerr, err, msg + ": error", rtol=1e-5, atol=1e-10)
    if cplx:
        ok(np.iscomplexobj(gS) or k == 0, msg + ": complex estimate")
    else:
        ok(np.isrealobj(gS), msg + ": real estimate")


def norm_of(S, how):
    n = len(S)
    if how == "trace":
        return np.real(np.trace(S)) / n
    if how == "determinant":
        return np.real(la.det(S)) ** (1 / n)
    if how == "element":
        return S[0, 0]
    return 1.


NORMS = ["None", "None", "trace", "determinant", "element", None, "unknown"]
