"""Runtime contracts on the real code (bounded companion of the proofs).

A case is a function case(rng) that draws an input, calls the real functions of /repo and checks the stated
contract against an independent oracle.  It raises Broken on a violation.  Every case is replayable from
(seed, case, index)."""
import logging
import sys
import warnings
import zlib
warnings.filterwarnings("ignore")
import numpy as np
import numpy.linalg as la

CASES = {}


class Broken(Exception):
    pass


class Skip(Exception):
    pass


def case(cid, n=60, name=None):
    """n = number of draws in the quick tier"""
    def deco(f):
        CASES.setdefault(cid, []).append((name or f.__name__, f, n))
        return f
    return deco


def rng_for(seed, cid, name, i):
    return np.random.default_rng([int(seed), zlib.crc32((cid + "/" + name).encode()), int(i)])


# ------------------------------------------------------------------ assertions
def short(x, n=400):
    with np.printoptions(precision=6, threshold=30, edgeitems=3):
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def ok(cond, msg, /, **kw):
    if not bool(cond):
        raise Broken(msg + "".join("; %s=%s" % (k, short(v)) for k, v in kw.items()))


def close(a, b, msg, /, rtol=1e-8, atol=None, **kw):
    """a equals b up to rounding, relative to the size of b"""
    a_, b_ = np.asarray(a), np.asarray(b)
    if a_.shape != b_.shape:
        raise Broken("%s: shape %s, expected %s%s" % (msg, a_.shape, b_.shape, "".join("; %s=%s" % (k, short(v)) for k, v in kw.items())))
    if a_.size == 0:
        return
    if a_.dtype == object or b_.dtype == object:
        raise Broken(msg + ": object array")
    scale = np.max(np.abs(b_)) if b_.size else 0
    if atol is None:
        atol = 1e-300
    with np.errstate(all="ignore"):
        bad = ~(np.abs(a_ - b_) <= atol + rtol * scale) & ~((a_ == b_))
    if np.any(bad):
        raise Broken("%s: got %s, expected %s%s" % (msg, short(a), short(b), "".join("; %s=%s" % (k, short(v)) for k, v in kw.items())))


def exact(a, b, msg, /, **kw):
    a_, b_ = np.asarray(a), np.asarray(b)
    if a_.shape != b_.shape or not np.array_equal(a_, b_):
        raise Broken("%s: got %s, expected %s%s" % (msg, short(a), short(b), "".join("; %s=%s" % (k, short(v)) for k, v in kw.items())))


def raises(exc, f, msg):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Broken("%s: raised %s(%s) instead of %s" % (msg, type(e).__name__, e, getattr(exc, "__name__", exc)))
    raise Broken("%s: returned %s instead of raising" % (msg, short(r)))


class Logs:
    """collects log records of the root logger"""

    def __init__(self, level=logging.DEBUG):
        self.rec = []

    def __enter__(self):
        outer = self

        class Hd(logging.Handler):
            def emit(self, r):
                outer.rec.append(r)
        self.h = Hd(level=logging.DEBUG)
        lg = logging.getLogger()
        self.old = lg.level
        lg.addHandler(self.h)
        return self

    def __exit__(self, *a):
        logging.getLogger().removeHandler(self.h)

    def has(self, level):
        return any(r.levelno >= level for r in self.rec)


# ------------------------------------------------------------------ inputs
def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def layout(rng, a):
    """same values, another memory layout"""
    r = rng.integers(5)
    if r == 0 or a.ndim == 0:
        return np.ascontiguousarray(a)
    if r == 1:
        return np.asfortranarray(a)
    if r == 2:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if r == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    return a.copy()


class RO:
    """arguments handed to the library: read-only views whose contents are compared afterwards"""

    def __init__(self, *arrs):
        self.arrs = [a for a in arrs if isinstance(a, np.ndarray)]
        self.copies = [a.copy() for a in self.arrs]

    def check(self, msg="argument modified"):
        for a, c in zip(self.arrs, self.copies):
            if not (a.dtype == c.dtype and a.shape == c.shape and np.array_equal(a, c, equal_nan=a.dtype.kind in "fc")):
                raise Broken("%s: was %s, now %s" % (msg, short(c), short(a)))


def randn(rng, *shape, cplx=False):
    a = rng.standard_normal(shape)
    if cplx:
        a = a + 1j * rng.standard_normal(shape)
    return a


def herm(a):
    return (a + np.conj(np.swapaxes(a, -1, -2))) / 2


def randherm(rng, n, cplx, k=None):
    return herm(randn(rng, *((n, n) if k is None else (k, n, n)), cplx=cplx))


def randunit(rng, n, cplx):
    q, _ = la.qr(randn(rng, n, n, cplx=cplx))
    return q


def randpd(rng, n, cplx, cond=None, scale=None, k=None):
    """Hermitian positive-definite; sometimes ill-conditioned, badly scaled, diagonal or identity"""
    if k is not None:
        return np.stack([randpd(rng, n, cplx, cond, scale) for _ in range(k)])
    if cond is None:
        cond = 10 ** rng.uniform(0.3, 3)
    if scale is None:
        scale = pick(rng, [1, 1, 1, 1e-3, 1e3, 7.3])
    r = rng.integers(8)
    d = np.exp(rng.uniform(-.5, .5, n) * np.log(cond))
    q = randunit(rng, n, cplx)
    m = (q * d) @ q.conj().T
    if r == 0:
        m = np.diag(d).astype(m.dtype)
    m = herm(m) * scale
    if cplx:
        m[np.diag_indices(n)] = np.real(np.diag(m))
    return m


def spec(C, f):
    w, v = la.eigh(C)
    return (v * f(w)) @ v.conj().T


def data(rng, n, p, cplx, scale=None):
    """centred heavy-ish tailed samples in general position"""
    C = randpd(rng, p, cplx, cond=10 ** rng.uniform(0.2, 1.5), scale=1)
    L = la.cholesky(C)
    X = randn(rng, n, p, cplx=cplx) @ L.T
    r = rng.integers(3)
    if r == 0:
        X = X / np.sqrt(rng.gamma(1.5, 1 / 1.5, size=(n, 1)))
    if scale is None:
        scale = pick(rng, [1, 1, 1e-2, 30])
    return X * scale


def stack_real(x):
    return np.concatenate([np.real(x), np.imag(x)], axis=-1)


def cov_real(C):
    return np.block([[np.real(C), -np.imag(C)], [np.imag(C), np.real(C)]]) / 2


def quiet():
    logging.getLogger().setLevel(logging.CRITICAL)


def rand_state_eq(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


class Solver:
    """stands in for the numerical optimisers: records the problem and returns a fixed positive-definite point"""

    def __init__(self, rng):
        self.seed = int(rng.integers(2 ** 31))
        self.calls = []

    def point(self, problem, x):
        r = np.random.default_rng(self.seed)
        man = problem.manifold
        subs = getattr(man, "_manifolds", None) or getattr(man, "manifolds", None)
        if subs:
            return tuple(randpd(r, s._n, True, cond=4, scale=1.5) for s in subs)
        n = man._n if hasattr(man, "_n") else x.shape[0]
        if n % 2 == 0:
            return 2 * cov_real(randpd(r, n // 2, True, cond=4, scale=1.5)) + 0.01 * np.diag(np.arange(n))
        return randpd(r, n, False, cond=4, scale=1.5)

    def __enter__(self):
        from pymanopt.solvers import SteepestDescent, ConjugateGradient, TrustRegions
        self.saved = []
        outer = self

        def solve(slf, problem, x=None, **kw):
            p = outer.point(problem, x)
            outer.calls.append((problem, x, kw, p))
            return p if not isinstance(p, tuple) else [a.copy() for a in p]
        for c in (SteepestDescent, ConjugateGradient, TrustRegions):
            self.saved.append((c, c.solve))
            c.solve = solve
        return self

    def __exit__(self, *a):
        for c, f in self.saved:
            c.solve = f
