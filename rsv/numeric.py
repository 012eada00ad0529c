"""Independent numerical evaluation of normal forms: validates the rewrite rules of the engine (see selfcheck.py).

Dimensions get small concrete sizes, atoms random values of their class, spectral terms are computed by numpy.
Nothing of nf.py is used to compute values."""
import cmath
import hashlib
import itertools
import math
import random
from fractions import Fraction
import numpy as np
from . import poly as PL
from . import nf as N
from .poly import P, Dim, IV, IF


class Skip(Exception):
    """value not defined / outside the evaluator"""


class Budget(Exception):
    pass


def h01(*a):
    d = hashlib.blake2b(repr(a).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") / 2.0 ** 64


def gauss(*a):
    u, v = h01(a, 1), h01(a, 2)
    return math.sqrt(-2 * math.log(u + 1e-12)) * math.cos(2 * math.pi * v)


def entry(A, *ix):
    if any(not 0 <= i < n for i, n in zip(ix, A.shape)):
        raise Skip("index out of range")
    return A[ix]


def smooth(seed, v):
    """a fixed smooth function of a flat complex vector"""
    v = np.asarray(v, dtype=complex).ravel()
    r = h01(seed, "c") * 2 - 1
    for k in range(2):
        ph = h01(seed, k, "p") * 6
        x = sum(z.real * (0.4 + h01(seed, k, n)) + z.imag * (0.4 + h01(seed, k, n, "i")) for n, z in enumerate(v))
        r += math.sin(ph + 0.3 * x)
    return r


class World:
    def __init__(self, seed, ctx, budget=300000):
        self.seed, self.ctx, self.left = seed, ctx, budget
        self.dims = {}
        self.free = {}
        self.mats = {}
        self.memo = {}
        self.refs = {}
        self.rnd = random.Random(seed)

    # ---------------------------------------------------------------- integers
    def dim(self, d):
        v = self.dims.get(d.key)
        if v is None:
            e = self.ctx.dimsub.get(d)
            if e is not None:
                v = self.P(e, {})
            else:
                lo = d.min if d.min is not None else -1
                v = lo + int(h01(self.seed, "dim", d.key) * 3)
                v = max(lo, v)
            if v != int(v):
                raise Skip("fractional size")
            self.dims[d.key] = v = int(v)
        return v

    def V(self, v, env):
        if isinstance(v, Dim):
            return self.dim(v)
        if isinstance(v, IV):
            r = env.get(v.key)
            if r is None:
                r = self.free.get(v.key)
                if r is None:
                    n = self.int(v.size, env)
                    if n <= 0:
                        raise Skip("empty index range")
                    r = self.free[v.key] = int(h01(self.seed, "iv", v.key) * n)
            return r
        a = [self.int(x, env) for x in v.args]
        nm = v.name
        if nm == "idiv":
            return a[0] // a[1]
        if nm == "imod":
            return a[0] % a[1]
        if nm in ("triu_r", "triu_c", "tril_r", "tril_c"):
            n, t = a
            pairs = [(i, j) for i in range(n) for j in range(n) if (i <= j if nm[:4] == "triu" else j <= i)]
            return pairs[t][nm.endswith("c")]
        if nm in ("triu_i", "tril_i"):
            n, i, j = a
            pairs = [(x, y) for x in range(n) for y in range(n) if (x <= y if nm[:4] == "triu" else y <= x)]
            return pairs.index((i, j))
        raise Skip("index function " + nm)

    def P(self, p, env):
        r = Fraction(0)
        for m, c in p.t.items():
            x = Fraction(c)
            for v in m:
                x *= self.V(v, env)
            r += x
        return r

    def int(self, p, env):
        r = self.P(PL.toP(p), env)
        if r.denominator != 1:
            raise Skip("fractional index")
        return int(r)

    # ---------------------------------------------------------------- expressions
    def nf(self, n, env):
        fv = tuple((v.key, env[v.key]) for v in sorted(n.fv, key=lambda v: v.key) if v.key in env)
        lam = env.get("~")
        k = (n.key, fv, lam)
        r = self.memo.get(k)
        if r is None:
            r = 0
            for T, c in n.t.items():
                r += complex(float(c[0]), float(c[1])) * self.term(T, env)
            self.memo[k] = r
        return r

    def term(self, T, env):
        return self.prod(list(T.bounds), list(T.facs), env)

    def prod(self, bounds, facs, env):
        """sum over the bounds of the product; bounds may depend on one another"""
        order = []
        rest = list(bounds)
        bs = {b.key for b in bounds}
        while rest:
            for b in rest:
                if not any(v.key in bs and all(v.key != o.key for o in order) for v in b.size.vars()):
                    order.append(b)
                    rest.remove(b)
                    break
            else:
                raise Skip("cyclic bounds")
        return self._sum(order, facs, dict(env))

    def _sum(self, order, facs, env):
        # factors whose indices are all known go out of the sum
        todo = {b.key for b in order}
        now, later = [], []
        for f, e in facs:
            fv = set(v.key for v in f.fv) | (set(v.key for v in e.fv) if isinstance(e, N.NF) else set())
            (later if fv & todo else now).append((f, e))
        r = 1
        # brackets first: a zero bracket makes undefined factors irrelevant
        now.sort(key=lambda x: not isinstance(x[0], N.Iv))
        for f, e in now:
            self.left -= 1
            if self.left < 0:
                raise Budget()
            x = self.fac(f, env)
            r *= self.pow(x, e, env)
            if r == 0:
                return 0
        if not order:
            return r
        b = order[0]
        n = self.int(b.size, env)
        s = 0
        for v in range(max(n, 0)):
            env[b.key] = v
            s += self._sum(order[1:], later, env)
        env.pop(b.key, None)
        return r * s

    def pow(self, x, e, env):
        if isinstance(e, N.NF):
            e = self.nf(e, env)
            if abs(complex(e).imag) > 1e-12:
                raise Skip("complex exponent")
            e = complex(e).real
        elif e.denominator == 1:
            e = int(e)
            if e < 0 and abs(x) < 1e-9:
                raise Skip("division by zero")
            return x ** e
        else:
            e = float(e)
        x = complex(x)
        if abs(x) < 1e-9:
            if e > 0:
                return 0
            raise Skip("power of zero")
        if abs(x.imag) < 1e-9 * abs(x):
            x = complex(x.real, 0.0)
            if x.real > 0:
                return x.real ** e
        return cmath.exp(e * cmath.log(x))

    def par(self, p, env):
        if isinstance(p, P):
            return ("i", self.P(p, env))
        if isinstance(p, N.NF):
            return ("v", [self.nf(p, env)])
        sh = [self.int(s, env) for s in p.shape]
        out = []
        for ix in itertools.product(*[range(s) for s in sh]):
            e2 = dict(env)
            e2.update({v.key: i for v, i in zip(p.ix, ix)})
            out.append(self.nf(p.nf, e2))
        return ("v", out, tuple(sh))

    def params(self, ps, env):
        disc, cont = [], []
        for p in ps:
            q = self.par(p, env)
            if q[0] == "i":
                disc.append(q[1])
            else:
                disc.append(q[2:])
                cont += list(q[1])
        return tuple(disc), cont

    def fac(self, f, env):
        if isinstance(f, N.At):
            if f.name == "~":
                return env["~"]
            if f.name == "?div0":
                raise Skip("division by zero")
            ix = tuple(self.int(p, env) for p in f.idx)
            disc, cont = self.params(f.params, env)
            z = complex(gauss(self.seed, f.name, disc, ix, "r"), 0 if f.isreal or f.ispos else gauss(self.seed, f.name, disc, ix, "i"))
            if cont:
                z += smooth((self.seed, f.name, disc, ix, "R"), cont) + (0 if f.isreal or f.ispos else 1j * smooth((self.seed, f.name, disc, ix, "I"), cont))
            if f.ispos:
                z = complex(math.exp(0.5 * z.real))
            return z.conjugate() if f.cj else z
        if isinstance(f, N.Ix):
            return self.V(f.v, env)
        if isinstance(f, N.Num):
            return f.n
        if isinstance(f, N.Iv):
            p = self.P(f.p, env)
            return int(p >= 0 if f.kind == "ge" else p == 0)
        if isinstance(f, (N.Base, N.NFac)):
            return self.nf(f.nf, env)
        if isinstance(f, N.Fn):
            return self.fn(f.name, [self.nf(a, env) for a in f.args])
        if isinstance(f, N.Sp):
            return entry(self.spec(f.g, f.M, env), self.int(f.i, env), self.int(f.j, env))
        if isinstance(f, N.EV):
            z = entry(self.eig(f.M, env)[1], self.int(f.i, env), self.int(f.k, env))
            return z.conjugate() if f.cj else z
        if isinstance(f, N.EL):
            return entry(self.eig(f.M, env)[0], self.int(f.k, env))
        if isinstance(f, N.Ch):
            A = self.mat(f.M, env)
            L = np.linalg.cholesky(A)
            if f.inv:
                L = np.linalg.inv(L)
            z = entry(L, self.int(f.i, env), self.int(f.j, env))
            return z.conjugate() if f.cj else z
        if isinstance(f, N.Det):
            return np.linalg.det(self.mat(f.M, env))
        raise Skip(type(f).__name__)

    def fn(self, name, a):
        if name == "exp":
            if a[0].real > 200:
                raise Skip("overflow")
            return cmath.exp(a[0])
        if name == "log":
            z = complex(a[0])
            if abs(z) < 1e-12:
                raise Skip("log of zero")
            if abs(z.imag) < 1e-10 * abs(z):
                z = complex(z.real, 0)
            return cmath.log(z)
        if name == "abs":
            return abs(a[0])
        if any(abs(complex(x).imag) > 1e-7 * (1 + abs(x)) for x in a):
            raise Skip("complex argument of " + name)
        a = [complex(x).real for x in a]
        if name == "min":
            return min(a)
        if name == "max":
            return max(a)
        if name == "sign":
            return (a[0] > 0) - (a[0] < 0)
        if name in ("floor", "trunc", "round"):
            return {"floor": math.floor, "trunc": math.trunc, "round": round}[name](a[0])
        v = smooth((self.seed, name), a)
        return math.exp(0.5 * v) if name in N.POSFN else v

    # ---------------------------------------------------------------- matrices
    def mkey(self, M, env):
        return (M.key,) + tuple((v.key, env[v.key]) for v in sorted(M.fv, key=lambda v: v.key) if v.key in env)

    def mat(self, M, env):
        k = self.mkey(M, env)
        A = self.mats.get(k)
        if A is not None:
            return A
        n = self.int(M.size, env)
        if n > 10:
            raise Budget()
        if isinstance(M, N.MSym):
            disc, cont = self.params(M.params, env)
            g = lambda i, j, w: gauss(self.seed, M.name, disc, i, j, w) + (0.5 * smooth((self.seed, M.name, disc, i, j, w), cont) if cont else 0)
            A = np.array([[complex(g(i, j, 0), 0 if M.isreal else g(i, j, 1)) for j in range(n)] for i in range(n)]).reshape(n, n)
            if M.kind == "hpd":
                A = A @ A.conj().T / max(n, 1) + 0.3 * np.eye(n)
            elif M.kind == "herm":
                A = (A + A.conj().T) / 2
            else:
                # entries are those of the array of the same name
                A = np.array([[self.fac(N.At(M.name, (PL.toP(i), PL.toP(j)), False, M.isreal, False, M.params), env) for j in range(n)] for i in range(n)]).reshape(n, n)
        else:
            A = np.zeros((n, n), dtype=complex)
            for i in range(n):
                for j in range(n):
                    e2 = dict(env)
                    e2[M.r.key], e2[M.c.key] = i, j
                    A[i, j] = self.nf(M.nf, e2)
        # only what the engine has already concluded: asking would fill its caches
        real = M.isreal if isinstance(M, N.MSym) else M._real
        herm = M.herm if isinstance(M, N.MSym) else M._herm
        if real:
            if np.abs(A.imag).max(initial=0) > 1e-8 * (1 + np.abs(A).max(initial=0)):
                raise AssertionError("matrix %s is claimed real" % M.key)
            A = A.real
        if herm and np.abs(A - A.conj().T).max(initial=0) > 1e-8 * (1 + np.abs(A).max(initial=0)):
            raise AssertionError("matrix %s is claimed Hermitian" % M.key)
        if herm:
            A = (A + A.conj().T) / 2
        self.mats[k] = A
        return A

    def eig(self, M, env):
        k = ("eig",) + self.mkey(M, env)
        r = self.mats.get(k)
        if r is None:
            A = self.mat(M, env)
            if np.abs(A - A.conj().T).max(initial=0) > 1e-8 * (1 + np.abs(A).max(initial=0)):
                raise Skip("eigenpairs of a non-Hermitian matrix")
            r = self.mats[k] = np.linalg.eigh(A)
        return r

    def spec(self, g, M, env):
        gv = tuple((v.key, env[v.key]) for v in sorted(g.fv, key=lambda v: v.key) if v.key in env)
        k = ("sp", g.key, gv, env.get("~") if False else None) + self.mkey(M, env)
        r = self.mats.get(k)
        if r is not None:
            return r
        A = self.mat(M, env)
        if A.shape[0] == 0:
            raise Skip("empty matrix")
        if g.key == N.LAM.key:
            r = A
        elif N.isinvg(g):
            if abs(np.linalg.det(A)) < 1e-9:
                raise Skip("singular")
            r = np.linalg.inv(A)
        else:
            herm = np.abs(A - A.conj().T).max() <= 1e-8 * (1 + np.abs(A).max())
            w, V = np.linalg.eigh(A) if herm else np.linalg.eig(A)
            d = []
            for x in w:
                e2 = dict(env)
                e2["~"] = complex(x)
                d.append(self.nf(g, e2))
            r = V @ np.diag(d) @ (V.conj().T if herm else np.linalg.inv(V))
        self.mats[k] = r
        return r


def worlds(ctx, tries=40):
    """assignments that satisfy the facts of a context"""
    for s in range(tries):
        w = World(random.randrange(1 << 40), ctx)
        try:
            if any(w.P(p, {}) < 0 for p in ctx.ge):
                continue
            for d, e in ctx.dimsub.items():
                v = w.dim(d)
                if d.min is not None and v < d.min:
                    raise Skip("size")
            ok = True
            for k in ctx.pos:
                n = PL.POS.get(k)
                if n is None:
                    continue
                x = complex(w.nf(n, {}))
                if not (x.real > 1e-9 and abs(x.imag) < 1e-7 * abs(x)):
                    ok = False
                    break
            if ok:
                yield w
        except Skip:
            continue


def close(a, b, tol=1e-6):
    a, b = complex(a), complex(b)
    if a != a or b != b:
        raise Skip("nan")
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))
