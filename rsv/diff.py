"""directional derivative of an expression with respect to an atomic matrix (calculus rules only; anything else is outside)"""
from . import nf as N
from .nf import mul, nsum, npow, nfac, const, fromP
from .poly import fresh, toP
from .rt import Unsupported
from .loops import _mf, mentions


def _has(f, A):
    r = set()
    _mf(f, r)
    return A.name in r


def _inv(M):
    g = npow(N.LAM, -1)
    return lambda i, j: N.mk_sp(g, M, i, j)


def D(n, A, E):
    """d/dt n at A + t E, t = 0"""
    out = N.Acc()
    for T, c in n.t.items():
        bounds, facs = N.openT(T)
        for k, (f, e) in enumerate(facs):
            if isinstance(e, N.NF) and A.name in mentions(e):
                raise Unsupported("derivative of a power whose exponent depends on the matrix")
            if not _has(f, A):
                continue
            x = dfac(f, A, E)
            if not x.t:
                continue
            p = toNF(f)
            v = mul(mul(e if isinstance(e, N.NF) else const(e), npow(p, N.eadd(e, -1))), x)
            for m, (g, eg) in enumerate(facs):
                if m != k:
                    v = mul(v, npow(toNF(g), eg))
            for b in reversed(bounds):
                v = nsum(v, b)
            out.add_nf(v, c)
    return out.nf()


def toNF(f):
    return f.nf if isinstance(f, (N.NFac, N.Base)) else nfac(f)


def dfac(f, A, E):
    if isinstance(f, (N.Base, N.NFac)):
        return D(f.nf, A, E)
    if isinstance(f, N.Fn) and f.name == "log":
        return mul(D(f.args[0], A, E), npow(f.args[0], -1))
    if isinstance(f, N.Fn) and f.name == "exp":
        return mul(D(f.args[0], A, E), nfac(f))
    if isinstance(f, N.Det):
        M = f.M
        i, j = fresh(M.size), fresh(M.size)
        return mul(nfac(f), nsum(nsum(mul(_inv(M)(toP(i), toP(j)), dmat(M, A, E, toP(j), toP(i))), i), j))
    if isinstance(f, N.Sp):
        e = N.gpower(f.g)
        M = f.M
        if e == 1:
            return dmat(M, A, E, f.i, f.j)
        if e == -1:
            i, j = fresh(M.size), fresh(M.size)
            g = _inv(M)
            return N.scale(nsum(nsum(mul(mul(g(f.i, toP(i)), dmat(M, A, E, toP(i), toP(j))), g(toP(j), f.j)), i), j), (-1, 0))
    raise Unsupported("derivative of %s" % f.key)


def dmat(M, A, E, i, j):
    if isinstance(M, N.MSym):
        return E(i, j) if M.key == A.key else const(0)
    return D(M.at(i, j), A, E)
