from h import *
from robuststats.models import cost as CO


@case("C21", 200)
def tyler_cost(rng):
    n, p = int(pick(rng, [1, 2, 3, 10, 30])), int(pick(rng, [1, 2, 3, 4, 6]))
    cplx = bool(rng.integers(2))
    X = data(rng, n, p, cplx)
    X = layout(rng, X)
    Q = layout(rng, randpd(rng, p, cplx))
    ro = RO(X, Q)
    d = np.real(np.einsum("ni,ij,nj->n", X.conj(), la.inv(Q), X))
    w = p * np.log(d).sum() + n * np.log(la.eigvalsh(Q)).sum()
    s = (p * np.abs(np.log(d)).sum() + n * np.abs(np.log(la.eigvalsh(Q))).sum() + n * p)
    f = CO.Tyler_cost_complex if cplx else CO.Tyler_cost_real
    for ag in (False, True):
        v = f(X, Q, ag)
        ok(np.ndim(v) == 0 and np.isrealobj(v), "real scalar", v=v)
        close(v, w, "Tyler cost (autograd=%s)" % ag, rtol=0, atol=1e-8 * s, n=n, p=p)
    close(f(X, Q), w, "Tyler cost (default backend)", rtol=0, atol=1e-8 * s)
    c = 10. ** rng.uniform(-3, 3)
    close(f(X, c * Q), f(X, Q), "scale invariant", rtol=0, atol=1e-8 * (s + n * p * abs(np.log(c))))
    t = np.exp(rng.standard_normal(n))
    close(f(X * t[:, None], Q) - f(X, Q), 2 * p * np.log(t).sum(), "rescaling samples shifts by a constant", rtol=0, atol=1e-8 * (s + p * n * 3))
    if not cplx:
        close(CO.Tyler_cost_complex(X, Q), w, "complex cost on real data", rtol=0, atol=1e-8 * s)
    ro.check()


@case("C21", 60)
def mismatch(rng):
    n, p = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    q = int(pick(rng, [j for j in range(1, 8) if j != p]))
    cplx = bool(rng.integers(2))
    f = CO.Tyler_cost_complex if cplx else CO.Tyler_cost_real
    raises(AttributeError, lambda: f(randn(rng, n, p, cplx=cplx), randpd(rng, q, cplx), bool(rng.integers(2))), "size mismatch")
    if n != p:
        raises(AttributeError, lambda: f(randn(rng, n, p, cplx=cplx), randpd(rng, n, cplx)), "size mismatch (matrix of the sample count)")
