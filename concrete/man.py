"""oracles shared by the manifold contracts (C16, C17, C18, C20)"""
from h import *
from robuststats.models import manifolds as MA


def size(rng):
    n = int(pick(rng, [1, 2, 2, 3, 3, 4, 6]))
    k = int(pick(rng, [1, 1, 1, 2, 3, 5, n]))
    return n, k


def pd(rng, n, k, cplx=True, cond=None):
    c = 10 ** rng.uniform(0.1, 1.5) if cond is None else cond
    x = randpd(rng, n, cplx, cond=c, k=None if k == 1 else k)
    return layout(rng, x)


def tang(rng, n, k, x=None, cplx=True):
    """Hermitian tangent vector, comparable in size to x"""
    u = randherm(rng, n, cplx, None if k == 1 else k)
    if x is not None:
        u = u * (np.abs(x).max() / max(1, np.sqrt(n)))
    return layout(rng, u)


def gen(rng, n, k, cplx=True):
    return layout(rng, randn(rng, *((n, n) if k == 1 else (k, n, n)), cplx=cplx))


def each(x, n):
    return x.reshape((-1, n, n))


def inner(x, u, v):
    n = x.shape[-1]
    return float(sum(np.real(np.trace(la.inv(a) @ b @ la.inv(a) @ c)) for a, b, c in zip(each(x, n), each(u, n), each(v, n))))


def pair(g, u):
    return float(np.real(np.sum(np.conj(g) * u)))


def H(a):
    return np.conj(np.swapaxes(a, -1, -2))


def sq(x):
    return spec(x, np.sqrt), spec(x, lambda w: 1 / np.sqrt(w))


def mapk(f, *a):
    n = a[0].shape[-1]
    r = np.stack([f(*t) for t in zip(*[each(x, n) for x in a])])
    return r.reshape(a[0].shape)


def expm1(x, u):
    s, i = sq(x)
    return s @ spec(herm(i @ u @ i), np.exp) @ s


def logm1(x, y):
    s, i = sq(x)
    return s @ spec(herm(i @ y @ i), np.log) @ s


def dist2(x, y):
    n = x.shape[-1]
    return sum(np.sum(np.log(la.eigvalsh(herm(sq(a)[1] @ b @ sq(a)[1]))) ** 2) for a, b in zip(each(x, n), each(y, n)))


def unitdet(x):
    n = x.shape[-1]
    return mapk(lambda a: a / np.exp(np.mean(np.log(la.eigvalsh(herm(a))))), x)
