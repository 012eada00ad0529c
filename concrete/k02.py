from h import *
from robuststats.models import mappings as m


def cmat(rng, n):
    a = randn(rng, n, n, cplx=True)
    r = rng.integers(6)
    if r == 0:
        a = herm(a)
    if r == 1:
        a = randpd(rng, n, True)
    if r == 2:
        a = np.real(a) + 0j
    if r == 3:
        a = a * 10.0 ** rng.integers(-200, 200, size=a.shape)
    return layout(rng, a)


@case("C02", 200)
def single(rng):
    n = int(pick(rng, [1, 1, 2, 2, 3, 4, 5, 8, 21]))
    if rng.integers(15) == 0:
        n = 120
    C = cmat(rng, n)
    ro = RO(C)
    r = m.covariancetoreal(C)
    ok(np.isrealobj(r), "real result")
    exact(r, cov_real(C), "covariancetoreal = 1/2 [[R,-S],[S,R]]", C=C)
    if np.array_equal(C, C.conj().T):
        exact(r, r.T, "Hermitian maps to symmetric")
    c = m.covariancetocomplex(r)
    ok(np.iscomplexobj(c), "complex result")
    exact(c, C, "covariancetocomplex inverts")
    exact(m.covariancetocomplex(C), C, "complex input unchanged")
    exact(m.covariancetoreal(r), r, "real input unchanged")
    ro.check()
    a = layout(rng, randn(rng, 2 * n, 2 * n))
    exact(m.covariancetocomplex(a), 2 * a[:n, :n] + 2j * a[n:, :n], "covariancetocomplex reads the first block column", a=a)


@case("C02", 120)
def batch(rng):
    n = int(pick(rng, [1, 2, 2, 3, 4, 5]))
    k = int(pick(rng, [0, 1, 1, 2, 3, 4, 6, 8, 40]))
    if rng.integers(25) == 0:
        n, k = 1, int(pick(rng, [300, 1100, 5000]))
    z = layout(rng, randn(rng, k, n, n, cplx=True))
    if rng.integers(3) == 0 and k:
        z = layout(rng, herm(z))
    ro = RO(z)
    r = m.covariancestoreal(z)
    ok(np.isrealobj(r), "real result")
    exact(r, np.stack([m.covariancetoreal(x) for x in z]) if k else np.zeros((0, 2 * n, 2 * n)), "batch agrees (to real)")
    exact(r, np.stack([cov_real(x) for x in z]) if k else np.zeros((0, 2 * n, 2 * n)), "batch block form")
    c = m.covariancestocomplex(r)
    ok(np.iscomplexobj(c), "complex result")
    exact(c, z, "batch inverse")
    exact(m.covariancestocomplex(z), z, "complex batch unchanged")
    exact(m.covariancestoreal(r), r, "real batch unchanged")
    ro.check()
    a = layout(rng, randn(rng, k, 2 * n, 2 * n))
    exact(m.covariancestocomplex(a), np.stack([m.covariancetocomplex(x) for x in a]) if k else np.zeros((0, n, n)), "batch agrees (to complex)", a=a)
    exact(m.covariancestocomplex(a), 2 * a[:, :n, :n] + 2j * a[:, n:, :n], "batch reads the first block column")


@case("C02", 60)
def rejected(rng):
    n = int(rng.integers(1, 6))
    q = n + int(rng.integers(1, 4))
    z = randn(rng, n, q, cplx=True)
    raises(AttributeError, lambda: m.covariancetoreal(z), "non-square complex")
    raises(AttributeError, lambda: m.covariancetoreal(z.T), "non-square complex")
    raises(AttributeError, lambda: m.covariancetocomplex(np.real(z)), "non-square real")
    raises(AttributeError, lambda: m.covariancetocomplex(np.real(z.T)), "non-square real")
    raises(AttributeError, lambda: m.covariancetoreal(z[0]), "vector")
    o = 2 * n - 1
    raises(AttributeError, lambda: m.covariancetocomplex(randn(rng, o, o)), "odd size")
    raises(AttributeError, lambda: m.covariancestocomplex(randn(rng, 3, o, o)), "odd size batch")
    raises(AttributeError, lambda: m.covariancestoreal(z), "2-D to batched")
    raises(AttributeError, lambda: m.covariancestocomplex(np.real(randn(rng, 2 * n, 2 * n))), "2-D to batched")
