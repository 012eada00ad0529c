from h import *
from robuststats.utils import linalg as L


@case("C06", 200)
def vectorisation(rng):
    n, q = int(pick(rng, [1, 1, 2, 3, 4, 5, 6, 9, 13])), int(rng.integers(1, 6))
    if rng.integers(15) == 0:
        n = 60
    cplx = bool(rng.integers(2))
    A = layout(rng, randn(rng, n, n, cplx=cplx))
    B = layout(rng, randn(rng, n, q, cplx=cplx))
    ro = RO(A, B)
    exact(L.vec(B), np.concatenate([B[:, j] for j in range(q)]), "vec stacks columns")
    exact(L.unvec(L.vec(A)), A, "unvec(vec(M)) = M")
    v = randn(rng, n * n, cplx=cplx)
    exact(L.vec(L.unvec(v)), v, "vec(unvec(v)) = v")
    Hm = layout(rng, herm(A))
    h = L.vech(Hm)
    ok(h.shape == (n * (n + 1) // 2,), "length of vech", shape=h.shape)
    close(L.unvech(h), Hm, "unvech(vech(H)) = H", rtol=1e-14)
    close(L.hermitian(A), (A + A.conj().T) / 2, "hermitian", rtol=1e-14)
    close(L.hermitian(A, autograd=True), (A + A.conj().T) / 2, "hermitian", rtol=1e-14)
    ro.check()
    w = L.vech(Hm)
    # vech holds the lower triangle column by column (any real diagonal vector is vech of unvech)
    v = randn(rng, n * (n + 1) // 2, cplx=cplx)
    if cplx:
        k = 0
        for i in range(n):
            v[k] = v[k].real
            k += n - i
    rv = RO(v)
    U = L.unvech(v)
    close(U, U.conj().T, "unvech Hermitian", rtol=1e-14)
    close(L.vech(U), v, "vech(unvech(v)) = v", rtol=1e-14)
    rv.check()


@case("C06", 80)
def batched_hermitian(rng):
    n, k = int(rng.integers(1, 6)), int(pick(rng, [1, 2, 3, 5]))
    cplx = bool(rng.integers(2))
    A = layout(rng, randn(rng, k, n, n, cplx=cplx))
    ro = RO(A)
    close(L.multiherm(A), np.stack([(a + a.conj().T) / 2 for a in A]), "multiherm of a batch", rtol=1e-14)
    close(L.multiherm(A[0]), (A[0] + A[0].conj().T) / 2, "multiherm of a matrix", rtol=1e-14)
    exact(L.multihconj(A), np.stack([a.conj().T for a in A]), "multihconj")
    ro.check()


@case("C06", 80)
def toeplitz(rng):
    p = int(pick(rng, [1, 2, 3, 5, 8, 30]))
    rho = float(pick(rng, [0, .5, -.5, .9, 1, -1, 1.5, rng.uniform(-1, 1)]))
    for dt in (complex, float, None):
        T = L.ToeplitzMatrix(rho, p) if dt is None else L.ToeplitzMatrix(rho, p, dtype=dt)
        i = np.arange(p)
        close(T, float(rho) ** np.abs(i[:, None] - i[None, :]), "rho^|i-j|", rtol=1e-13)
        ok(T.dtype == np.dtype(dt or complex), "dtype", dtype=T.dtype)
