"""Normal form of scalar expressions over indexed arrays.

NF = finite sum of  coef * SUM_{bound indices} PRODUCT factor^exponent
with Gaussian-rational coefficients.  Every rewrite below is an identity of real / complex linear algebra
(see DESIGN.md, "rewrite rules"); two expressions are proved equal when their normal forms coincide.
"""
from fractions import Fraction
import itertools
from . import poly as PL
from .poly import P, V, Dim, IV, IF, toP, fresh, ge0, lt, short, mkif, same, ZERO, ONE

F = Fraction
LIMIT_TERMS = 6000


class NFLimit(Exception):
    pass


# ------------------------------------------------------------------ coefficients (re, im)
def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], 0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    d = F(a[0] * a[0] + a[1] * a[1])
    return (F(a[0]) / d, -F(a[1]) / d)


# ------------------------------------------------------------------ exponents
def ekey(e):
    return e.key if isinstance(e, NF) else str(e)


def enorm(e):
    if isinstance(e, NF):
        c = e.const()
        if c is not None and c[1] == 0:
            return F(c[0])
        return e
    return F(e)


def eadd(a, b):
    if isinstance(a, NF) or isinstance(b, NF):
        return enorm(add(toNF(a), toNF(b)))
    return a + b


def emul(a, b):
    if isinstance(a, NF) or isinstance(b, NF):
        return enorm(mul(toNF(a), toNF(b)))
    return a * b


def eint(e):
    return (not isinstance(e, NF)) and e.denominator == 1


def eneg(e):
    return (not isinstance(e, NF)) and e < 0


# ------------------------------------------------------------------ factors
class Fac:
    __slots__ = ("key", "_h", "fv", "level")
    real = False
    pos = False

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return self._h

    def _fin(self, key, fv, level):
        self.key = short(key)
        self._h = hash(self.key)
        self.fv = fv
        self.level = level

    def __repr__(self):
        return self.key

    def sub(self, mp):
        raise NotImplementedError

    def conj(self):
        raise NotImplementedError


def pfv(ps):
    s = frozenset()
    for p in ps:
        s |= p.vars()
    return s


def _kfv(x):
    return x.vars() if isinstance(x, P) else x.fv


def _klev(x):
    return 0 if isinstance(x, P) else x.level


def _ksub(x, mp):
    return x.sub(mp)


class At(Fac):
    """opaque array entry  name{params}[idx]"""
    __slots__ = ("name", "idx", "cj", "isreal", "ispos", "params")

    def __init__(self, name, idx=(), cj=False, real=False, pos=False, params=()):
        self.name, self.idx, self.cj, self.isreal, self.ispos, self.params = name, tuple(idx), cj and not real, real, pos, tuple(params)
        k = name
        if self.params:
            k += "{" + ";".join(p.key for p in self.params) + "}"
        if self.idx:
            k += "[" + ",".join(p.key for p in self.idx) + "]"
        if self.cj:
            k += "'"
        fv = pfv(self.idx)
        for p in self.params:
            fv = fv | _kfv(p)
        self._fin(k, fv, max([_klev(p) for p in self.params], default=0))

    @property
    def real(self):
        return self.isreal

    @property
    def pos(self):
        return self.ispos

    def sub(self, mp):
        return nfac(At(self.name, [p.sub(mp) for p in self.idx], self.cj, self.isreal, self.ispos, [_ksub(p, mp) for p in self.params]))

    def conj(self):
        if self.isreal:
            return nfac(self)
        return nfac(At(self.name, self.idx, not self.cj, False, self.ispos, self.params))


class Ix(Fac):
    """an index variable / dimension used as a number"""
    __slots__ = ("v",)
    real = True

    def __init__(self, v):
        self.v = v
        fv = frozenset([v])
        if isinstance(v, IF):
            fv = fv | pfv(v.args)
        self._fin("'" + v.key, fv, 0)

    @property
    def pos(self):
        return isinstance(self.v, Dim) and self.v.min is not None and self.v.min >= 1

    def sub(self, mp):
        return fromP(toP(self.v).sub(mp))

    def conj(self):
        return nfac(self)


class Num(Fac):
    __slots__ = ("n",)
    real = True
    pos = True

    def __init__(self, n):
        self.n = n
        self._fin("#%d" % n, frozenset(), 0)

    def sub(self, mp):
        return nfac(self)

    def conj(self):
        return nfac(self)


class Iv(Fac):
    """Iverson bracket: kind 'ge': [p>=0], 'eq': [p==0]"""
    __slots__ = ("kind", "p")
    real = True

    def __init__(self, kind, p):
        self.kind, self.p = kind, p
        self._fin("<%s %s>" % (p.key, kind), p.vars(), 0)

    def sub(self, mp):
        return mk_iv(self.kind, self.p.sub(mp))

    def conj(self):
        return nfac(self)


class Fn(Fac):
    """function of scalar arguments (elementwise); real-valued, except exp and log of non-real arguments"""
    __slots__ = ("name", "args", "_real")

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)
        self._real = None
        fv = frozenset()
        for a in self.args:
            fv |= a.fv
        self._fin(name + "(" + ",".join(a.key for a in self.args) + ")", fv, max([a.level for a in self.args], default=0))

    @property
    def real(self):
        if self.name not in ("exp", "log"):
            return True
        if self._real is None:
            self._real = all(isreal(a) for a in self.args)
        return self._real

    @property
    def pos(self):
        if self.name in ("exp",):
            return self.real
        if self.name in ("abs",):
            return True
        if self.name in ("min",):
            return all(ispos(a) for a in self.args)
        if self.name in ("max",):
            return any(ispos(a) for a in self.args)
        return self.name in POSFN

    def sub(self, mp):
        return mk_fn(self.name, [a.sub(mp) for a in self.args])

    def conj(self):
        if self.real:
            return nfac(self)
        return mk_fn(self.name, [conj(a) for a in self.args])


POSFN = {"chi2.ppf", "chi2.cdf"}


class Base(Fac):
    """an irreducible expression taken to a power"""
    __slots__ = ("nf", "_real", "_pos")

    def __init__(self, nf):
        self.nf = nf
        self._real = None
        self._pos = None
        self._fin("(" + nf.key + ")", nf.fv, nf.level)

    @property
    def real(self):
        if self._real is None:
            self._real = isreal(self.nf)
        return self._real or ispos(self.nf)

    @property
    def pos(self):
        return ispos(self.nf)

    def sub(self, mp):
        return self.nf.sub(mp)

    def conj(self):
        return conj(self.nf)


# ------------------------------------------------------------------ matrices
class MSym:
    """an atomic matrix"""
    __slots__ = ("name", "size", "params", "kind", "isreal", "key", "fv", "level")

    def __init__(self, name, size, params=(), kind="hpd", real=False):
        self.name, self.size, self.params, self.kind, self.isreal = name, toP(size), tuple(params), kind, real
        k = name
        if self.params:
            k += "{" + ";".join(p.key for p in self.params) + "}"
        self.key = short(k)
        fv = frozenset()
        for p in self.params:
            fv |= _kfv(p)
        self.fv = fv
        self.level = max([_klev(p) for p in self.params], default=0)

    def sub(self, mp):
        return MSym(self.name, self.size.sub(mp), [_ksub(p, mp) for p in self.params], self.kind, self.isreal)

    def conj(self):
        if self.isreal:
            return self
        return None

    @property
    def herm(self):
        return self.kind in ("hpd", "herm")

    @property
    def pd(self):
        return self.kind == "hpd"

    def at(self, i, j):
        if self.herm:
            return mk_sp(LAM, self, i, j)
        return nfac(At(self.name, (i, j), False, self.isreal, False, self.params))


class MLam:
    """matrix given by an entry expression nf in the formal indices r, c"""
    __slots__ = ("size", "r", "c", "nf", "key", "fv", "level", "_herm", "_real", "_pd", "_chain", "_split")

    def __init__(self, size, r, c, nf):
        self.size = size = toP(size)
        lv = nf.level + 1
        fr, fc = IV("#%d_0" % lv, size), IV("#%d_1" % lv, size)
        if (r.key, c.key) != (fr.key, fc.key):
            tr, tc = fresh(size), fresh(size)
            nf = nf.sub({r: toP(tr), c: toP(tc)}).sub({tr: toP(fr), tc: toP(fc)})
            if nf.level + 1 != lv:
                lv = nf.level + 1
                gr, gc = IV("#%d_0" % lv, size), IV("#%d_1" % lv, size)
                nf = nf.sub({fr: toP(gr), fc: toP(gc)})
                fr, fc = gr, gc
        self.r, self.c, self.nf = fr, fc, nf
        self.level = lv
        self.key = short("L[%s](%s)" % (size.key, nf.key))
        self.fv = frozenset(v for v in nf.fv if v not in (fr, fc))
        self._herm = self._real = self._pd = self._chain = self._split = None

    isreal = property(lambda self: self._isreal())

    def _isreal(self):
        if self._real is None:
            self._real = isreal(self.nf)
        return self._real

    @property
    def herm(self):
        if self._herm is None:
            self._herm = (conj(self.nf).sub(self._swap()).key == self.nf.key)
        return self._herm

    def _swap(self):
        return {self.r: toP(self.c), self.c: toP(self.r)}

    @property
    def pd(self):
        if self._pd is None:
            z, w = fresh(self.size), fresh(self.size)
            q = mul(self.at(toP(z), toP(w)), mul(nfac(At("?z", (toP(z),), True)), nfac(At("?z", (toP(w),)))))
            self._pd = ispos(nsum(nsum(q, z), w)) or self._pd_struct()
        return self._pd

    def _pd_struct(self):
        """a positive multiple of a positive-definite matrix, or the realification of a Hermitian positive-definite one"""
        s, M2 = mat_content(self)
        if s is not None:
            return ispos(s) and M2.pd
        rz = real_split(self)
        return rz is not None and rz[0].herm and rz[0].pd

    def sub(self, mp):
        if not any(v in self.fv for v in mp) and not any(isinstance(v, Dim) for v in mp):
            return self
        return MLam(self.size.sub(mp), self.r, self.c, self.nf.sub(mp))

    def at(self, i, j):
        return self.nf.sub({self.r: toP(i), self.c: toP(j)})


class ALam:
    """an array used as the argument of an opaque function: entry expression nf in the formal indices"""
    __slots__ = ("shape", "ix", "nf", "key", "fv", "level")

    def __init__(self, shape, ix, nf):
        shape = [toP(s) for s in shape]
        unit = {v: ZERO for v, s in zip(ix, shape) if same(s, 1)}
        if unit:
            nf = nf.sub(unit)
        for _ in range(4):
            lv = nf.level + 1
            fx = [IV("%%%d_%d" % (lv, n), s) for n, s in enumerate(shape)]
            if [v.key for v in ix] == [v.key for v in fx]:
                break
            t = [fresh(s) for s in shape]
            nf = nf.sub({v: toP(w) for v, w in zip(ix, t)}).sub({v: toP(w) for v, w in zip(t, fx)})
            ix = fx
        self.shape, self.ix, self.nf, self.level = tuple(shape), tuple(ix), nf, nf.level + 1
        self.key = short("A[%s](%s)" % (",".join(s.key for s in shape), nf.key))
        self.fv = frozenset(v for v in nf.fv if v not in self.ix)

    def sub(self, mp):
        if not any(v in self.fv for v in mp) and not any(isinstance(v, Dim) for v in mp):
            return self
        sh = [s.sub(mp) for s in self.shape]
        t = [fresh(s) for s in sh]
        return ALam(sh, t, self.nf.sub({v: toP(w) for v, w in zip(self.ix, t)}).sub(mp))


def param_map(p, fn):
    """apply fn to the expressions inside a parameter of an opaque entry"""
    if isinstance(p, ALam):
        n = fn(p.nf)
        return p if n.key == p.nf.key else ALam(p.shape, p.ix, n)
    if isinstance(p, NF):
        return fn(p)
    return p


def mat_from(nf, r, c, size):
    """matrix object from an entry expression; recognises atomic matrices"""
    if len(nf.t) == 1:
        (T, co), = nf.t.items()
        if co == (1, 0) and not T.bounds and len(T.facs) == 1:
            f, e = T.facs[0]
            if e == 1 and isinstance(f, Sp) and f.g.key == LAM.key and isinstance(f.M, MSym):
                pr, pc = toP(r).key, toP(c).key
                if f.i.key == pr and f.j.key == pc:
                    return f.M
                if f.M.isreal and f.i.key == pc and f.j.key == pr:
                    return f.M
    return MLam(size, r, c, nf)


class Sp(Fac):
    """entry (i, j) of the matrix function g(M)"""
    __slots__ = ("g", "M", "i", "j")

    def __init__(self, g, M, i, j):
        self.g, self.M, self.i, self.j = g, M, i, j
        gk = "" if g.key == LAM.key else g.key
        self._fin("%s<%s>[%s,%s]" % (gk, M.key, i.key, j.key), M.fv | i.vars() | j.vars() | g.fv, max(M.level, g.level))

    @property
    def real(self):
        return self.M.isreal or (self.M.herm and self.i.key == self.j.key)

    @property
    def pos(self):
        return self.M.herm and self.i.key == self.j.key and gpos(self.g, self.M)

    def sub(self, mp):
        return mk_sp(self.g.sub(mp), self.M.sub(mp), self.i.sub(mp), self.j.sub(mp))

    def conj(self):
        if self.M.isreal:
            return nfac(self)
        if self.M.herm:
            return mk_sp(self.g, self.M, self.j, self.i)
        M2 = MLam(self.M.size, self.M.r, self.M.c, conj(self.M.nf)) if isinstance(self.M, MLam) else conj_sym(self.M)
        return mk_sp(self.g, M2, self.i, self.j)


def conj_sym(M):
    r, c = fresh(M.size), fresh(M.size)
    return MLam(M.size, r, c, nfac(At(M.name, (toP(r), toP(c)), True, False, False, M.params)))


class EV(Fac):
    """eigenvector entry V[i,k] of Hermitian M"""
    __slots__ = ("M", "i", "k", "cj")

    def __init__(self, M, i, k, cj=False):
        self.M, self.i, self.k, self.cj = M, i, k, cj and not M.isreal
        self._fin("V<%s>[%s,%s]%s" % (M.key, i.key, k.key, "'" if self.cj else ""), M.fv | i.vars() | k.vars(), M.level)

    @property
    def real(self):
        return self.M.isreal

    def sub(self, mp):
        return nfac(EV(self.M.sub(mp), self.i.sub(mp), self.k.sub(mp), self.cj))

    def conj(self):
        return nfac(EV(self.M, self.i, self.k, not self.cj))


class EL(Fac):
    """k-th eigenvalue of Hermitian M"""
    __slots__ = ("M", "k")
    real = True

    def __init__(self, M, k):
        self.M, self.k = M, k
        self._fin("l<%s>[%s]" % (M.key, k.key), M.fv | k.vars(), M.level)

    @property
    def pos(self):
        return self.M.pd

    def sub(self, mp):
        return nfac(EL(self.M.sub(mp), self.k.sub(mp)))

    def conj(self):
        return nfac(self)


class Ch(Fac):
    """Cholesky factor entry (inv=False) or its inverse (inv=True): L L^H = M"""
    __slots__ = ("M", "i", "j", "cj", "inv")

    def __init__(self, M, i, j, cj=False, inv=False):
        self.M, self.i, self.j, self.cj, self.inv = M, i, j, cj and not M.isreal, inv
        self._fin("C%s<%s>[%s,%s]%s" % ("i" if inv else "", M.key, i.key, j.key, "'" if self.cj else ""), M.fv | i.vars() | j.vars(), M.level)

    @property
    def real(self):
        return self.M.isreal

    def sub(self, mp):
        return nfac(Ch(self.M.sub(mp), self.i.sub(mp), self.j.sub(mp), self.cj, self.inv))

    def conj(self):
        return nfac(Ch(self.M, self.i, self.j, not self.cj, self.inv))


class Det(Fac):
    __slots__ = ("M",)

    def __init__(self, M):
        self.M = M
        self._fin("det<%s>" % M.key, M.fv, M.level)

    @property
    def real(self):
        return self.M.isreal or self.M.herm

    @property
    def pos(self):
        return self.M.pd

    def sub(self, mp):
        return mk_det(self.M.sub(mp))

    def conj(self):
        if self.real:
            return nfac(self)
        M = self.M
        M2 = MLam(M.size, M.r, M.c, conj(M.nf)) if isinstance(M, MLam) else conj_sym(M)
        return mk_det(M2)


# ------------------------------------------------------------------ terms and sums
class Term:
    __slots__ = ("bounds", "facs", "key", "_h", "fv", "level")

    def __init__(self, bounds, facs):
        """facs: sorted tuple of (Fac, exp)"""
        self.bounds, self.facs = bounds, facs
        k = "".join("S%s." % b.key for b in bounds) + "*".join(f.key if not isinstance(e, NF) and e == 1 else f.key + "^" + ekey(e) for f, e in facs)
        self.key = short(k)
        self._h = hash(self.key)
        fv = frozenset()
        lv = 0
        for f, e in facs:
            fv |= f.fv
            lv = max(lv, f.level)
            if isinstance(e, NF):
                fv |= e.fv
                lv = max(lv, e.level)
        self.fv = frozenset(v for v in fv if v not in bounds)
        self.level = lv + 1 if bounds else lv

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return self._h


TONE = Term((), ())


class NF:
    __slots__ = ("t", "key", "_h", "fv", "level", "_memo")

    def __init__(self, t):
        self.t = t
        items = sorted((T.key, c) for T, c in t.items())
        self.key = short("+".join((cstr(c) + "." + k) if c != (1, 0) or not k else k for k, c in items) or "0")
        self._h = hash(self.key)
        fv = frozenset()
        lv = 0
        for T in t:
            fv |= T.fv
            lv = max(lv, T.level)
        self.fv = fv
        self.level = lv
        self._memo = {}

    def __eq__(self, o):
        return isinstance(o, NF) and self.key == o.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)

    def const(self):
        if not self.t:
            return (0, 0)
        if len(self.t) == 1 and TONE in self.t:
            return self.t[TONE]
        return None

    def iszero(self):
        return not self.t

    def sub(self, mp):
        mp = {k: toP(v) for k, v in mp.items()}
        if not any(isinstance(v, Dim) for v in mp):
            mp = {k: v for k, v in mp.items() if k in self.fv}
            if not mp:
                return self
        mk = tuple(sorted((k.key, v.key) for k, v in mp.items()))
        r = self._memo.get((mk, PL.CTX.stamp))
        if r is not None:
            return r
        acc = Acc()
        for T, c in self.t.items():
            bounds, facs = openT(T)
            if any(isinstance(v, Dim) for v in mp):
                m2 = dict(mp)
                nb = []
                for b in bounds:
                    b2 = fresh(b.size.sub(mp))
                    m2[b] = toP(b2)
                    nb.append(b2)
                bounds = nb
            else:
                m2 = mp
            r = Raw(c, list(bounds), [])
            raws = [r]
            for f, e in facs:
                if isinstance(e, NF):
                    e = enorm(e.sub(m2))
                g = f.sub(m2) if (f.fv & m2.keys() or any(isinstance(v, Dim) for v in m2)) else nfac(f)
                raws = times_pow(raws, g, e)
            for rr in raws:
                acc.add_raw(rr)
        r = acc.nf()
        self._memo[(mk, PL.CTX.stamp)] = r
        return r

    # arithmetic sugar
    def __add__(self, o):
        return add(self, toNF(o))
    __radd__ = __add__

    def __mul__(self, o):
        return mul(self, toNF(o))
    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, (-1, 0))

    def __sub__(self, o):
        return add(self, -toNF(o))

    def __rsub__(self, o):
        return add(toNF(o), -self)

    def __pow__(self, e):
        return npow(self, e)

    def __truediv__(self, o):
        return mul(self, npow(toNF(o), -1))


def cstr(c):
    if c[1] == 0:
        return str(c[0])
    return "(%s+%sj)" % (c[0], c[1])


class Raw:
    __slots__ = ("c", "bounds", "facs")

    def __init__(self, c, bounds, facs):
        self.c, self.bounds, self.facs = c, bounds, facs


class Acc:
    def __init__(self):
        self.d = {}

    def addT(self, T, c):
        o = self.d.get(T)
        if o is not None:
            c = (o[0] + c[0], o[1] + c[1])
        if c[0] == 0 and c[1] == 0:
            self.d.pop(T, None)
        else:
            self.d[T] = c
            if len(self.d) > LIMIT_TERMS:
                raise NFLimit("too many terms")

    def add_nf(self, nf, k=(1, 0)):
        for T, c in nf.t.items():
            self.addT(T, cmul(c, k))

    def add_raw(self, raw):
        for T, c in simplify(raw):
            self.addT(T, c)

    def nf(self):
        return NF({T: (PL.norm(c[0]), PL.norm(c[1])) for T, c in self.d.items()})


def openT(T):
    """rename the bound variables of a term apart"""
    if not T.bounds:
        return [], list(T.facs)
    mp = {b: toP(fresh(b.size)) for b in T.bounds}
    # sizes may mention other bounds
    nb = []
    for b in T.bounds:
        (m,) = mp[b].t
        v = m[0]
        if b.size.vars() & set(T.bounds):
            v2 = IV(v.name, b.size.sub(mp))
            mp[b] = toP(v2)
            v = v2
        nb.append(v)
    return nb, [(ren(f, mp), (enorm(e.sub(mp)) if isinstance(e, NF) else e)) for f, e in T.facs]


_ren_memo = {}


def ren(f, mp):
    if not (f.fv & mp.keys()):
        return f
    n = f.sub(mp)
    if len(n.t) == 1:
        (T, c), = n.t.items()
        if c == (1, 0) and not T.bounds and len(T.facs) == 1 and T.facs[0][1] == 1:
            return T.facs[0][0]
    # a renaming can expose no new simplification except through Base expansion
    if isinstance(f, Base):
        return Base(n)
    return NFac(n)


class NFac(Fac):
    """temporary wrapper: factor standing for an expression (only inside raw terms)"""
    __slots__ = ("nf",)

    def __init__(self, nf):
        self.nf = nf
        self._fin("{" + nf.key + "}", nf.fv, nf.level)

    @property
    def real(self):
        return isreal(self.nf)

    @property
    def pos(self):
        return ispos(self.nf)

    def sub(self, mp):
        return self.nf.sub(mp)

    def conj(self):
        return conj(self.nf)


def one(M):
    """1 x 1 matrix under the current facts"""
    c = M.size.const()
    if c is None and PL.CTX.dimsub:
        c = PL.nrm(M.size).const()
    return c == 1


def nfac(f, e=1):
    if isinstance(f, (EV, EL)) and one(f.M):
        # LAPACK returns the eigenpair (a, 1) for the 1 x 1 matrix a
        return const(1) if isinstance(f, EV) else npow(f.M.at(ZERO, ZERO), e)
    return NF({Term((), ((f, F(e)),)): (1, 0)})


def const(c):
    if isinstance(c, complex):
        c = (F(repr(c.real)) if c.real != int(c.real) else int(c.real), F(repr(c.imag)) if c.imag != int(c.imag) else int(c.imag))
    elif isinstance(c, float):
        c = (F(repr(c)), 0)
    elif not isinstance(c, tuple):
        c = (c, 0)
    c = (PL.norm(F(c[0])), PL.norm(F(c[1])))
    return NF({TONE: c}) if c != (0, 0) else NF({})


_fromP = {}


def fromP(p):
    r = _fromP.get(p.key)
    if r is None:
        acc = Acc()
        for m, c in p.t.items():
            d = {}
            for v in m:
                d[v] = d.get(v, 0) + 1
            facs = tuple(sorted(((Ix(v), F(n)) for v, n in d.items()), key=lambda x: x[0].key))
            acc.addT(Term((), facs), (c, 0))
        r = acc.nf()
        _fromP[p.key] = r
    return r


def toNF(x):
    if isinstance(x, NF):
        return x
    if isinstance(x, Fac):
        return nfac(x)
    if isinstance(x, (P, V)):
        return fromP(toP(x))
    return const(x)


def scale(n, c):
    if c == (1, 0):
        return n
    if c == (0, 0):
        return NF({})
    return NF({T: tuple(PL.norm(x) for x in cmul(k, c)) for T, k in n.t.items()})


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    acc = Acc()
    acc.add_nf(a)
    acc.add_nf(b)
    return acc.nf()


def addn(xs):
    acc = Acc()
    for x in xs:
        acc.add_nf(x)
    return acc.nf()


_mul_memo = {}


def mul(a, b):
    ca = a.const()
    if ca is not None:
        return scale(b, ca)
    cb = b.const()
    if cb is not None:
        return scale(a, cb)
    k = (a.key, b.key, PL.CTX.stamp) if a.key <= b.key else (b.key, a.key, PL.CTX.stamp)
    r = _mul_memo.get(k)
    if r is not None:
        return r
    acc = Acc()
    for T, c in a.t.items():
        for T2, c2 in b.t.items():
            b1, f1 = openT(T)
            b2, f2 = openT(T2)
            acc.add_raw(Raw(cmul(c, c2), b1 + b2, f1 + f2))
    r = acc.nf()
    _mul_memo[k] = r
    return r


def nprod(xs):
    r = const(1)
    for x in xs:
        r = mul(r, x)
    return r


def times_pow(raws, g, e):
    """raws * g^e as raws"""
    if not (not isinstance(e, NF) and e == 1):
        g = npow(g, e)
    out = []
    for r in raws:
        for T, c in g.t.items():
            b, f = openT(T)
            out.append(Raw(cmul(r.c, c), r.bounds + b, r.facs + f))
    return out


def nsum(n, v):
    """SUM over v in [0, v.size) of n"""
    if not isinstance(v, IV):
        raise TypeError
    acc = Acc()
    for T, c in n.t.items():
        b, f = openT(T)
        w = fresh(v.size)
        mp = {v: toP(w)}
        acc.add_raw(Raw(c, [w] + b, [(ren(x, mp), enorm(e.sub(mp)) if isinstance(e, NF) else e) for x, e in f]))
    return acc.nf()


def conj(n):
    k = ("conj", PL.CTX.stamp)
    r = n._memo.get(k)
    if r is not None:
        return r
    acc = Acc()
    for T, c in n.t.items():
        if all(f.real for f, e in T.facs):
            acc.addT(T, (c[0], -c[1]))
            continue
        b, f = openT(T)
        raws = [Raw((c[0], -c[1]), b, [])]
        for x, e in f:
            raws = times_pow(raws, nfac(x) if x.real else x.conj(), e)
        for r in raws:
            acc.add_raw(r)
    r = acc.nf()
    n._memo[k] = r
    return r


def isreal(n):
    if all(c[1] == 0 and all(f.real for f, e in T.facs) for T, c in n.t.items()):
        return True
    return conj(n).key == n.key


def re(n):
    return scale(add(n, conj(n)), (F(1, 2), 0))


def im(n):
    return scale(add(n, scale(conj(n), (-1, 0))), (0, F(-1, 2)))


# ------------------------------------------------------------------ positivity
POS_FACTS = []     # callables nf -> bool


def ispos(n):
    k = ("pos", PL.CTX.stamp)
    r = n._memo.get(k)
    if r is None:
        r = n._memo[k] = _ispos(n)
    return r


def _ispos(n):
    if not n.t:
        return False
    if PL.CTX.pos:
        if n.key in PL.CTX.pos:
            return True
        iv = [v for v in n.fv if isinstance(v, IV)]
        if len(iv) == 1 and n.sub({iv[0]: toP(IV("!0", iv[0].size))}).key in PL.CTX.pos:
            return True
        if len(n.t) > 1 or n.fv:
            c, com = content(n, lambda f: f.pos)
            c = poscoef(c)
            if com or c != (1, 0):
                m = div_content(n, c, com)
                if m.key in PL.CTX.pos:
                    return True
    if all(c[1] == 0 and c[0] > 0 and posterm(T) for T, c in n.t.items()):
        return True
    # n polynomial in dims only?
    if all(not T.bounds and all(isinstance(f, Ix) and eint(e) and e > 0 for f, e in T.facs) for T in n.t):
        p = topoly(n)
        if p is not None and ge0(p - 1):
            return True
        # scaled integrality: positive rational polynomial
        if p is not None and ge0(p) and any(not T.facs for T in n.t):
            return ge0(p - toP(F(1, 10**6)))
    return False


def topoly(n):
    """NF -> P when it is a polynomial in dims / index variables"""
    t = {}
    for T, c in n.t.items():
        if T.bounds or c[1] != 0:
            return None
        m = []
        for f, e in T.facs:
            if not isinstance(f, Ix) or not eint(e) or e < 0:
                return None
            m += [f.v] * int(e)
        t[tuple(sorted(m, key=lambda v: v.key))] = c[0]
    return P(t)


def posterm(T):
    """product of positive things / squared moduli / quadratic forms (positive under the generic-position assumption)"""
    rest = []
    for f, e in T.facs:
        if f.pos:
            continue
        if f.real and eint(e) and e % 2 == 0:
            continue
        rest.append((f, e))
    if not rest:
        return True
    # cancel f with conj f
    bounds = [b for b in T.bounds if any(b in f.fv for f, e in rest)]
    if len(bounds) > 5 or any(not eint(e) for f, e in rest):
        return False
    for f, e in rest:
        if isinstance(f, Iv) or (isinstance(f, Base) and f.fv & set(bounds)) or (isinstance(f, Fn) and f.fv & set(bounds)):
            return False
    for sig in involutions(bounds):
        if _psd_under(rest, sig):
            return True
    return False


def involutions(bs):
    if not bs:
        yield {}
        return
    b = bs[0]
    for s in involutions(bs[1:]):
        d = dict(s)
        d[b] = b
        yield d
    for i in range(1, len(bs)):
        if bs[i].size.key == b.size.key:
            for s in involutions(bs[1:i] + bs[i + 1:]):
                d = dict(s)
                d[b] = bs[i]
                d[bs[i]] = b
                yield d


def _psd_under(rest, sig):
    mp = {v: toP(w) for v, w in sig.items() if v is not w}
    cnt = {}
    for f, e in rest:
        cnt[f.key] = cnt.get(f.key, 0) + int(e)
    by = {f.key: f for f, e in rest}
    fixed = {v for v, w in sig.items() if v is w}
    # cross factors: PSD kernels in (u, sig(u))
    for k in list(cnt):
        f = by[k]
        if isinstance(f, Sp) and f.M.herm and gpos(f.g, f.M) and cnt[k] == 1:
            if f.i.sub(mp).key == f.j.key and not (f.M.fv & set(sig)) and f.i.key != f.j.key:
                del cnt[k]
    # remaining: pair f with conj(f) renamed by sig; each pair must be split in left / right consistently:
    # left factors may only use one side of each 2-cycle and any fixed index
    left = []
    while cnt:
        k = next(iter(cnt))
        f = by[k]
        g = conj(nfac(f)).sub(mp)
        if len(g.t) != 1:
            return False
        (T, c), = g.t.items()
        if c != (1, 0) or T.bounds or len(T.facs) != 1 or T.facs[0][1] != 1:
            return False
        g = T.facs[0][0]
        if g.key == k:
            if cnt[k] % 2 == 0 and not (f.fv & mp.keys()):
                del cnt[k]
                continue
            return False
        if g.key not in cnt or cnt[g.key] != cnt[k]:
            return False
        left.append((f, g))
        del cnt[k]
        del cnt[g.key]
    # choose orientation
    cyc = {}
    for v, w in sig.items():
        if v is not w:
            cyc[v] = w
    side = {}
    pend = list(left)
    for f, g in pend:
        opts = []
        for a in (f, g):
            ok = True
            ns = {}
            for v in a.fv & cyc.keys():
                s = side.get(v, ns.get(v))
                if s is None:
                    ns[v] = "L"
                    ns[cyc[v]] = "R"
                elif s == "R":
                    ok = False
            if ok and not any(ns.get(v) == "R" for v in a.fv & cyc.keys()):
                opts.append(ns)
        if not opts:
            return False
        side.update(opts[0])
    return True


# ------------------------------------------------------------------ constructors
def mk_iv(kind, p):
    p = PL.nrm(p)
    c = p.const()
    if c is not None:
        return const(1 if (c >= 0 if kind == "ge" else c == 0) else 0)
    if kind == "ge":
        if ge0(p):
            return const(1)
        if ge0(-p - 1):
            return const(0)
        if any(isinstance(v, IF) for v in p.top_vars()) and ge0(-p):
            return mk_iv("eq", p)
        # drop a term a*v with the rest deciding: [d*A + B >= 0], 0 <= B < d  ->  [A >= 0]
        s = _radix(p)
        if s is not None:
            A, B, d = s
            if ge0(B):
                return mk_iv("ge", A)
        return nfac(Iv("ge", p))
    if ge0(p - 1) or ge0(-p - 1):
        return const(0)
    s = _radix(p)
    if s is not None:
        A, B, d = s
        return mul(mk_iv("eq", A), mk_iv("eq", B))
    # sign canonical
    m = max(p.t, key=lambda mo: tuple(v.key for v in mo))
    if p.t[m] < 0:
        p = -p
    g = None
    for cc in p.t.values():
        g = F(cc) if g is None else F(_gcd(g, F(cc)))
    if g not in (None, 1):
        p = p.scale(1 / g)
    return nfac(Iv("eq", p))


def _gcd(a, b):
    from math import gcd
    return F(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


def _radix(p):
    """p = d*A + B with |B| < d (d a positive dim product), A and B non-constant"""
    cands = set()
    for m in p.t:
        ds = tuple(v for v in m if isinstance(v, Dim))
        ivs = [v for v in m if not isinstance(v, Dim)]
        if ds and ivs:
            cands.add(ds)
    for ds in sorted(cands, key=lambda x: (-len(x), tuple(v.key for v in x))):
        d = P({ds: 1})
        A, B = PL._pdiv(p, d)
        if not A.t or not B.t:
            continue
        if A.const() is not None:
            continue
        if lt(B, d) and lt(-B, d):
            return A, B, d
    return None


def delta(p, q):
    return mk_iv("eq", toP(p) - toP(q))


def num_pow(c, e):
    """positive rational c to the exponent e, as NF"""
    if c == 1:
        return const(1)
    if eint(e):
        return const(F(c) ** int(e))
    r = const(1)
    c = F(c)
    facs = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factor(n).items():
            facs[p] = facs.get(p, 0) + s * k
    raw = Raw((1, 0), [], [(Num(p), emul(F(k), e)) for p, k in facs.items() if k])
    return from_raw(raw)


def factor(n):
    d = {}
    q = 2
    while q * q <= n:
        while n % q == 0:
            d[q] = d.get(q, 0) + 1
            n //= q
        q += 1
    if n > 1:
        d[n] = d.get(n, 0) + 1
    return d


def from_raw(raw):
    acc = Acc()
    acc.add_raw(raw)
    return acc.nf()


def content(n, allow=lambda f: True):
    """n = coef * prod facs * n'; extract common factors (those free of bound variables)"""
    ts = list(n.t.items())
    com = None
    for T, c in ts:
        d = {}
        bs = set(T.bounds)
        for f, e in T.facs:
            if not (f.fv & bs) and not isinstance(f, Iv):
                d[f] = e
        if com is None:
            com = d
        else:
            new = {}
            for f, e in com.items():
                if f in d:
                    e2 = d[f]
                    if isinstance(e, NF) or isinstance(e2, NF):
                        if ekey(e) == ekey(e2):
                            new[f] = e
                    elif (e > 0) == (e2 > 0):
                        new[f] = min(e, e2, key=abs)
            com = new
        if not com:
            break
    # negative powers that occur in only some terms are pulled out too (common denominators)
    com = dict(com or {})
    if len(ts) > 1:
        negs = {}
        for T, c in ts:
            bs = set(T.bounds)
            for f, e in T.facs:
                if not isinstance(e, NF) and e < 0 and not (f.fv & bs) and not isinstance(f, Iv):
                    if f not in com:
                        negs[f] = min(negs.get(f, 0), e)
                    else:
                        negs[f] = min(negs.get(f, 0), e, com[f]) if not isinstance(com[f], NF) else 0
        for f, e in negs.items():
            if e != 0 and not isinstance(com.get(f, 0), NF):
                com[f] = e
    com = {f: e for f, e in com.items() if allow(f)}
    # leading coefficient
    lead = min(ts, key=lambda x: (len(x[0].bounds), x[0].key))
    c = lead[1]
    return c, com


def poscoef(c):
    """positive rational scale of a coefficient"""
    return (abs(c[0]) if c[0] != 0 else abs(c[1]), 0)


def div_content(n, c, com):
    """n / (c * prod com), dividing term by term so that sums raised to negative powers cancel before they expand"""
    ic = cinv(c)
    acc = Acc()
    for T, k in n.t.items():
        d = {}
        order = []
        bounds, facs = openT(T)
        for f, e in facs:
            if f in d:
                d[f] = eadd(d[f], e)
            else:
                d[f] = e
                order.append(f)
        for f, x in com.items():
            mx = emul(x, F(-1))
            if f in d:
                d[f] = eadd(d[f], mx)
            else:
                d[f] = mx
                order.append(f)
        acc.add_raw(Raw(cmul(k, ic), bounds, [(f, d[f]) for f in order if d[f] != 0]))
    return acc.nf()


def npow(n, e):
    e = enorm(e)
    if not isinstance(e, NF):
        if e == 0:
            return const(1)
        if e == 1:
            return n
        if eint(e) and e > 0:
            r = n
            for _ in range(int(e) - 1):
                r = mul(r, n)
            return r
    if not n.t:
        if eneg(e):
            return nfac(At("?div0"))
        return n
    k = ("pow", ekey(e), PL.CTX.stamp)
    r = n._memo.get(k)
    if r is None:
        r = n._memo[k] = _npow(n, e)
    return r


def _npow(n, e):
    integer = eint(e)
    if len(n.t) == 1:
        (T, c), = n.t.items()
        if not T.bounds:
            raw = Raw((1, 0), [], [])
            rest = []
            restc = (1, 0)
            if integer:
                cc = cinv(c) if e < 0 else c
                co = (1, 0)
                for _ in range(abs(int(e))):
                    co = cmul(co, cc)
                raw.c = co
            elif c[1] == 0 and c[0] > 0:
                pw = num_pow(c[0], e)
                return mul(pw, _npow(NF({T: (1, 0)}), e)) if c[0] != 1 else _npow_mono(T, e)
            elif c[1] == 0:
                # negative: pull the modulus
                if c[0] == -1:
                    if len(T.facs) == 0:
                        if e == F(1, 2):
                            return const((0, 1))
                        return nfac(Base(n), 1) if False else from_raw(Raw((1, 0), [], [(Base(n), e)]))
                    pos = [(f, x) for f, x in T.facs if f.pos]
                    oth = [(f, x) for f, x in T.facs if not f.pos]
                    b = NF({Term((), tuple(oth)): c})
                    return mul(_npow_mono(Term((), tuple(pos)), e), from_raw(Raw((1, 0), [], [(Base(b), e)]))) if pos else from_raw(Raw((1, 0), [], [(Base(b), e)]))
                return mul(num_pow(-c[0], e), _npow(NF({T: (-1, 0)}), e))
            else:
                return from_raw(Raw((1, 0), [], [(Base(n), e)]))
            raw.facs = [(f, emul(x, e)) for f, x in T.facs]
            return from_raw(raw)
    # several terms or bound variables: extract content
    c, com = content(n, (lambda f: True) if integer else (lambda f: f.pos))
    if not integer:
        c = poscoef(c)
    out = const(1)
    m = n
    if c != (1, 0) or com:
        m = div_content(n, c, com)
        out = mul(npow(const(c), e) if c != (1, 0) else const(1), from_raw(Raw((1, 0), [], [(f, emul(x, e)) for f, x in com.items()])))
        if m.const() is not None or (len(m.t) == 1 and not next(iter(m.t)).bounds):
            return mul(out, npow(m, e))
    return mul(out, from_raw(Raw((1, 0), [], [(Base(m), e)])))


def _npow_mono(T, e):
    """fractional / symbolic power of a bound-free monomial with coefficient 1"""
    facs = []
    rest = []
    for f, x in T.facs:
        if f.pos:
            facs.append((f, emul(x, e)))
        elif f.real and eint(x) and x % 2 == 0:
            a = mk_fn("abs", [nfac(f)])
            g = npow(a, emul(x, e))
            (T2, c2), = g.t.items()
            facs += list(T2.facs)
        else:
            rest.append((f, x))
    r = from_raw(Raw((1, 0), [], facs))
    if rest:
        if len(rest) == 1 and rest[0][1] == 1 and isinstance(rest[0][0], Base):
            r = mul(r, from_raw(Raw((1, 0), [], [(rest[0][0], e)])))
        else:
            r = mul(r, from_raw(Raw((1, 0), [], [(Base(NF({Term((), tuple(rest)): (1, 0)})), e)])))
    return r


def mono(n):
    """(coef, Term) when n is a single term"""
    if len(n.t) == 1:
        (T, c), = n.t.items()
        return c, T
    return None


def mk_fn(name, args):
    args = [toNF(a) for a in args]
    if name == "log":
        return mk_log(args[0])
    if name == "exp":
        return mk_exp(args[0])
    if name == "abs":
        a = args[0]
        if ispos(a):
            return a
        c = a.const()
        if c is not None:
            if c[1] == 0:
                return const(abs(c[0]))
            return npow(const(c[0] * c[0] + c[1] * c[1]), F(1, 2))
        if isreal(a):
            m = mono(a)
            if m and not m[1].bounds:
                co, T = m
                pos = [(f, e) for f, e in T.facs if f.pos]
                oth = tuple((f, e) for f, e in T.facs if not f.pos)
                r = Raw((abs(co[0]), 0) if co[1] == 0 else (1, 0), [], pos)
                if co[1] == 0 and all(isinstance(f, Iv) for f, e in oth):
                    return from_raw(Raw(r.c, [], pos + list(oth)))
                b = NF({Term((), oth): (1, 0) if co[1] == 0 else co})
                if (-b).key < b.key:
                    b = -b
                r.facs.append((Fn("abs", [b]), F(1)))
                return from_raw(r)
            if (-a).key < a.key:
                a = -a
            return nfac(Fn("abs", [a]))
        return npow(mul(a, conj(a)), F(1, 2))
    if name in ("min", "max"):
        flat = []
        for a in args:
            flat.append(a)
        d = {a.key: a for a in flat}
        args = [d[k] for k in sorted(d)]
        if len(args) == 1:
            return args[0]
        if len(args) == 2:
            diff = args[0] - args[1]
            c = diff.const()
            if c is not None and c[1] == 0:
                if name == "min":
                    return args[0] if c[0] <= 0 else args[1]
                return args[0] if c[0] >= 0 else args[1]
            if name == "max" and ispos(diff):
                return args[0]
            if name == "max" and ispos(-diff):
                return args[1]
            if name == "min" and ispos(diff):
                return args[1]
            if name == "min" and ispos(-diff):
                return args[0]
        # common positive scalar factor: normalise so that the first argument has unit content
        ms = [a for a in args if a.t]
        if len(ms) == len(args):
            # clear positive sums in denominators: min(1, a/B) = min(B, a)/B
            for a in args:
                m = mono(a)
                for f, e in (m[1].facs if m and not m[1].bounds else ()):
                    if isinstance(f, Base) and f.pos and not isinstance(e, NF) and e == -1:
                        def clear(b):
                            h = mono(b)
                            if h and not h[1].bounds and any(x.key == f.key and not isinstance(y, NF) for x, y in h[1].facs):
                                out = const(h[0])
                                for x, y in h[1].facs:
                                    y = y - e if x.key == f.key else y
                                    if isinstance(y, NF) or y:
                                        out = mul(out, npow(x.nf if isinstance(x, Base) else nfac(x), y))
                                return out
                            return mul(b, f.nf)
                        return mul(npow(nfac(f), e), mk_fn(name, [clear(b) for b in args]))
            unit = []
            for a in args:
                m = mono(a)
                if m and not m[1].bounds and m[0][1] == 0 and m[0][0] > 0 and all(f.pos for f, e in m[1].facs):
                    unit.append(a)
            if unit:
                s = min(unit, key=lambda a: (len(a.fv), a.key))
                if s.const() != (1, 0) and not any(a.const() == (1, 0) for a in args):
                    inv = npow(s, -1)
                    return mul(s, mk_fn(name, [mul(a, inv) for a in args]))
        # min(1, t) = t min(1, 1/t) for a positive monomial t: orient
        if len(args) == 2 and any(a.key == "1." for a in args):
            x = args[1] if args[0].key == "1." else args[0]
            m = mono(x)
            if m and not m[1].bounds and m[0] == (1, 0) and m[1].facs and all(f.pos for f, e in m[1].facs):
                inv = npow(x, -1)
                mi = mono(inv)
                if mi is None or len(mi[1].facs) == len(m[1].facs) and inv.key < x.key:
                    return mul(x, mk_fn(name, [const(1), inv]))
        return nfac(Fn(name, args))
    if name == "sign" and ispos(args[0]):
        return const(1)
    return nfac(Fn(name, args))


def mk_log(a):
    k = ("log", PL.CTX.stamp)
    r = a._memo.get(k)
    if r is None:
        r = a._memo[k] = _mk_log(a)
    return r


def _mk_log(a):
    c = a.const()
    if c is not None and c[1] == 0 and c[0] > 0:
        acc = Acc()
        cc = F(c[0])
        for n, s in ((cc.numerator, 1), (cc.denominator, -1)):
            for p, k in factor(n).items():
                acc.add_nf(nfac(Fn("log", [const(p)])), (s * k, 0))
        return acc.nf()
    m = mono(a)
    if m and not m[1].bounds:
        co, T = m
        pos = [(f, e) for f, e in T.facs if f.pos]
        oth = tuple((f, e) for f, e in T.facs if not f.pos)
        if not (len(pos) == 1 and not oth and co == (1, 0) and pos[0][1] == 1 and not isinstance(pos[0][0], (Base, Fn, Num))):
            if pos or co != (1, 0):
                r = NF({})
                for f, e in pos:
                    r = r + mul(toNF(e), _log_fac(f))
                if co[1] == 0 and co[0] > 0:
                    r = r + mk_log(const(co[0]))
                    rest = NF({Term((), oth): (1, 0)})
                elif co[1] == 0:
                    r = r + mk_log(const(-co[0]))
                    rest = NF({Term((), oth): (-1, 0)})
                else:
                    rest = NF({Term((), oth): co})
                if rest.const() == (1, 0):
                    return r
                if rest.key != a.key:
                    return r + nfac(Fn("log", [rest]))
    else:
        c, com = content(a, lambda f: f.pos)
        cc = poscoef(c)
        if cc != (1, 0) or com:
            rest = div_content(a, cc, com)
            r = mk_log(const(cc[0]))
            for f, x in com.items():
                r = r + mul(toNF(x), _log_fac(f))
            return r + mk_log(rest)
    return nfac(Fn("log", [a]))


def _log_fac(f):
    if isinstance(f, Fn) and f.name == "exp":
        return f.args[0]
    if isinstance(f, Base):
        return nfac(Fn("log", [f.nf]))
    if isinstance(f, Det) and isinstance(f.M, MLam):
        pass
    return nfac(Fn("log", [nfac(f)]))


def mk_exp(a):
    if not a.t:
        return const(1)
    out = const(1)
    rest = Acc()
    for T, c in a.t.items():
        hit = None
        for idx, (f, e) in enumerate(T.facs):
            if isinstance(f, Fn) and f.name == "log" and e == 1 and not T.bounds and c[1] == 0:
                if hit is None:
                    hit = idx
                else:
                    hit = -1
        if hit is not None and hit >= 0:
            ee = NF({Term((), tuple(x for i, x in enumerate(T.facs) if i != hit)): c})
            out = mul(out, npow(T.facs[hit][0].args[0], enorm(ee)))
        else:
            rest.addT(T, c)
    rest = rest.nf()
    if not rest.t:
        return out
    return mul(out, from_raw(Raw((1, 0), [], [(Fn("exp", [rest]), F(1))])))


# ------------------------------------------------------------------ spectral functions
LAMF = At("~", (), False, True, True)
LAM = nfac(LAMF)


def gsub(g, h):
    """g(h): substitute the spectral variable by h"""
    if g.key == LAM.key:
        return h
    return subfac(g, lambda f: h if isinstance(f, At) and f.name == "~" else None)


def subfac(n, fn):
    """replace atomic factors by expressions, everywhere"""
    acc = Acc()
    for T, c in n.t.items():
        b, facs = openT(T)
        raws = [Raw(c, b, [])]
        for f, e in facs:
            r = fn(f)
            if r is None:
                if isinstance(f, Base):
                    r = subfac(f.nf, fn)
                elif isinstance(f, Fn):
                    r = mk_fn(f.name, [subfac(a, fn) for a in f.args])
                elif isinstance(f, NFac):
                    r = subfac(f.nf, fn)
                elif isinstance(f, Sp):
                    M = f.M
                    if isinstance(M, MLam):
                        M = mat_from(subfac(M.nf, fn), M.r, M.c, M.size)
                        r = mk_sp(f.g, M, f.i, f.j)
                    elif any(isinstance(p, (ALam, NF)) for p in M.params):
                        r = mk_sp(f.g, MSym(M.name, M.size, [param_map(p, lambda n: subfac(n, fn)) for p in M.params], M.kind, M.isreal), f.i, f.j)
                    else:
                        r = nfac(f)
                elif isinstance(f, At) and f.params and any(isinstance(p, (ALam, NF)) for p in f.params):
                    r = nfac(At(f.name, f.idx, f.cj, f.isreal, f.ispos, [param_map(p, lambda n: subfac(n, fn)) for p in f.params]))
                elif isinstance(f, Det):
                    M = f.M
                    r = mk_det(mat_from(subfac(M.nf, fn), M.r, M.c, M.size)) if isinstance(M, MLam) else nfac(f)
                else:
                    r = nfac(f)
            if isinstance(e, NF):
                e = enorm(subfac(e, fn))
            raws = times_pow(raws, r, e)
        for r in raws:
            acc.add_raw(r)
    return acc.nf()


G_INV = None
_REALV = At("~r", (), False, True, False)


def gpos(g, M):
    """g > 0 on the spectrum of M"""
    if not M.herm:
        return False
    if M.pd:
        return ispos(g)
    return ispos(gsub(g, nfac(_REALV)))

_sp_memo = {}
_plain_memo = {}      # (g, M, facts) with no simplification -> real symmetric


def mk_sp(g, M, i, j):
    i, j = toP(i), toP(j)
    g0 = g.const()
    if g0 is not None:
        return scale(delta(i, j), g0)
    k = (g.key, M.key, i.key, j.key, PL.CTX.stamp)
    r = _sp_memo.get(k)
    if r is None:
        r = _sp_memo[k] = _mk_sp(g, M, i, j)
    return r


def isinvg(g):
    return g.key == G_INV.key


def gpower(g):
    """exponent when g = lambda^e"""
    m = mono(g)
    if m and m[0] == (1, 0) and not m[1].bounds and len(m[1].facs) == 1 and m[1].facs[0][0].key == "~":
        return m[1].facs[0][1]
    return None


def _mk_sp(g, M, i, j):
    if not g.t:
        return NF({})
    # scalar factors and sums are taken out of the function (linearity)
    m = mono(g)
    if m and m[0] != (1, 0):
        return scale(mk_sp(NF({m[1]: (1, 0)}), M, i, j), m[0])
    if m and not m[1].bounds:
        out = [(f, e) for f, e in m[1].facs if not depends_lam(f) and not (isinstance(e, NF) and "~" in e.key)]
        if out:
            inn = tuple((f, e) for f, e in m[1].facs if (f, e) not in out)
            return mul(NF({Term((), tuple(out)): (1, 0)}), mk_sp(NF({Term((), inn): (1, 0)}), M, i, j))
    if 1 < len(g.t) <= 4:
        acc = Acc()
        for T, c in g.t.items():
            acc.add_nf(mk_sp(NF({T: (1, 0)}), M, i, j), c)
        return acc.nf()
    if isinstance(M, MSym):
        if not M.herm and g.key == LAM.key:
            return M.at(i, j)
        if g.key != LAM.key and one(M):
            return gsub(g, M.at(ZERO, ZERO))
        if M.herm and M.isreal and j.key < i.key:
            i, j = j, i
        return nfac(Sp(g, M, i, j))
    # ---- MLam
    if g.key == LAM.key:
        return M.at(i, j)
    pl = _plain_memo.get((g.key, M.key, PL.CTX.stamp))
    if pl is not None:
        # none of the rules below applies to this function of this matrix (they do not look at the indices)
        if pl and j.key < i.key:
            i, j = j, i
        return nfac(Sp(g, M, i, j))
    if not M.nf.t:
        z = gsub(g, const(0))
        return mul(z, delta(i, j))
    # size one
    if one(M):
        return gsub(g, M.at(ZERO, ZERO))
    # positive integer power: expand
    e = gpower(g)
    if e is not None and eint(e) and 1 < e <= 4:
        b = fresh(M.size)
        return nsum(mul(M.at(i, toP(b)), mk_sp(npow(LAM, e - 1), M, toP(b), j)), b)
    # scalar content
    s, M2 = mat_content(M)
    if s is not None:
        if isinvg(g) or ispos(s) or isreal(s) and gfree(g):
            return mk_sp(gsub(g, mul(s, LAM)), M2, i, j)
    # single spectral factor: composition; also transposed real etc.
    t = mono(M.nf)
    if t and t[0] == (1, 0) and not t[1].bounds and len(t[1].facs) == 1 and t[1].facs[0][1] == 1:
        f = t[1].facs[0][0]
        rk, ck = toP(M.r).key, toP(M.c).key
        if isinstance(f, Sp):
            if f.i.key == rk and f.j.key == ck:
                return mk_sp(gsub(g, f.g), f.M, i, j)
            if f.i.key == ck and f.j.key == rk:
                return mk_sp(gsub(g, f.g), f.M, j, i)
        if isinstance(f, Ch) and isinvg(g) and not f.inv:
            if f.i.key == rk and f.j.key == ck:
                return nfac(Ch(f.M, i, j, f.cj, True))
            if f.i.key == ck and f.j.key == rk:
                return nfac(Ch(f.M, j, i, f.cj, True))
        if isinstance(f, Ch) and isinvg(g) and f.inv:
            if f.i.key == rk and f.j.key == ck:
                return nfac(Ch(f.M, i, j, f.cj, False))
            if f.i.key == ck and f.j.key == rk:
                return nfac(Ch(f.M, j, i, f.cj, False))
        if isinstance(f, EV) and isinvg(g):
            if f.i.key == rk and f.k.key == ck:
                return nfac(EV(f.M, j, i, not f.cj))
            if f.i.key == ck and f.k.key == rk:
                return nfac(EV(f.M, i, j, not f.cj))
    # diagonal
    d = diag_of(M)
    if d is not None:
        return mul(delta(i, j), gsub(g, d.sub({M.r: i})))
    # f(M1): polynomial-like expression of one matrix: sum of Sp(.,M1,r,c) and deltas
    h = as_function_of_one(M)
    if h is not None:
        gg, M1, flip = h
        return mk_sp(gsub(g, gg), M1, *((j, i) if flip else (i, j)))
    es = eig_split(M)
    if es is not None:
        Hm, kk, h, flip = es
        w = fresh(M.size)
        cj = flip
        z = mul(gsub(g, h), mul(nfac(EV(Hm, i, toP(kk), cj)), nfac(EV(Hm, j, toP(kk), (not cj) and not Hm.isreal))))
        return nsum(z, kk)
    # kronecker product
    kr = kron_split(M)
    if kr is not None and e is not None:
        A, B, b = kr
        qi, ri = PL.idivmod(i, b)
        qj, rj = PL.idivmod(j, b)
        return mul(mk_sp(g, A, qi, qj), mk_sp(g, B, ri, rj))
    # realification of a complex matrix
    rz = real_split(M)
    if rz is not None:
        Z, p = rz
        return realify_entry(lambda a, b: mk_sp(g, Z, a, b), p, i, j)
    # product of square matrices
    ch = chain(M)
    if ch is not None and len(ch) >= 2:
        if isinvg(g):
            out = const(1)
            cur = i
            bs = []
            for n_, (mk, inv) in enumerate(reversed(ch)):
                nxt = j if n_ == len(ch) - 1 else None
                if nxt is None:
                    b = fresh(M.size)
                    bs.append(b)
                    nxt = toP(b)
                out = mul(out, inv(cur, nxt))
                cur = nxt
            for b in bs:
                out = nsum(out, b)
            return out
        if not M.herm and len(ch) == 2:
            # A B with A, B Hermitian PD atoms: g(AB) = B^-1/2 g(B^1/2 A B^1/2) B^1/2
            r = _pd_pair(g, M, i, j)
            if r is not None:
                return r
    _plain_memo[(g.key, M.key, PL.CTX.stamp)] = M.herm and M.isreal
    if M.herm and M.isreal and j.key < i.key:
        i, j = j, i
    return nfac(Sp(g, M, i, j))


def gfree(g):
    return gpower(g) is not None and eint(gpower(g))


def _pd_pair(g, M, i, j):
    t = mono(M.nf)
    c, T = t
    fs = [f for f, e in T.facs]
    rk, ck = toP(M.r).key, toP(M.c).key
    A = next((f for f in fs if isinstance(f, Sp) and rk in (f.i.key, f.j.key)), None)
    B = next((f for f in fs if isinstance(f, Sp) and ck in (f.i.key, f.j.key)), None)
    if A is None or B is None or A is B or len(fs) != 2:
        return None
    if A.i.key != rk or B.j.key != ck:
        if not ((A.M.isreal or A.i.key == rk) and (B.M.isreal or B.j.key == ck)):
            return None
    if not (gpos(A.g, A.M) and gpos(B.g, B.M)):
        return None
    n = M.size
    hb = npow(B.g, F(1, 2))
    r, s = fresh(n), fresh(n)
    u, v = fresh(n), fresh(n)
    core = nsum(nsum(nprod([mk_sp(hb, B.M, toP(r), toP(u)), mk_sp(A.g, A.M, toP(u), toP(v)), mk_sp(hb, B.M, toP(v), toP(s))]), u), v)
    W = mat_from(core, r, s, n)
    x, y = fresh(n), fresh(n)
    ihb = npow(hb, -1)
    return nsum(nsum(nprod([mk_sp(ihb, B.M, i, toP(x)), mk_sp(g, W, toP(x), toP(y)), mk_sp(hb, B.M, toP(y), j)]), x), y)


def depends_lam(f):
    if isinstance(f, At):
        return f.name == "~"
    if isinstance(f, Base):
        return any(depends_lam(x) for T in f.nf.t for x, e in T.facs)
    if isinstance(f, Fn):
        return any(depends_lam(x) for a in f.args for T in a.t for x, e in T.facs)
    return False


def mat_content(M):
    """(s, M') with M = s*M', s scalar free of r, c ; (None, M) when trivial"""
    rc = {M.r, M.c}
    c, com = content(M.nf, lambda f: not (f.fv & rc))
    com = {f: e for f, e in com.items() if not (f.fv & rc)}
    if c == (1, 0) and not com:
        return None, M
    if c[1] != 0:
        c = (1, 0)
        if not com:
            return None, M
    if M.herm:
        com = {f: e for f, e in com.items() if f.real}
        if c[0] < 0:
            c = (-c[0], 0)
        if c == (1, 0) and not com:
            return None, M
    s = from_raw(Raw(c, [], list(com.items())))
    nf2 = div_content(M.nf, c, com)
    M2 = mat_from(nf2, M.r, M.c, M.size)
    if M2.key == M.key:
        return None, M
    return s, M2


def diag_of(M):
    """d(r) when M[r,c] = delta(r,c) d(r)"""
    dk = delta(M.r, M.c)
    (T0, _), = dk.t.items()
    d0 = T0.facs[0][0]
    acc = Acc()
    for T, c in M.nf.t.items():
        if not any(f.key == d0.key for f, e in T.facs):
            return None
        b, facs = openT(T)
        acc.add_raw(Raw(c, b, [(f, e) for f, e in facs if f.key != d0.key]))
    return acc.nf().sub({M.c: toP(M.r)})


def as_function_of_one(M):
    """M = sum_k c_k g_k(M1) (same M1, same orientation), possibly plus multiples of the identity"""
    rk, ck = toP(M.r).key, toP(M.c).key
    M1 = None
    flip = None
    g = Acc()
    if len(M.nf.t) < 2:
        return None
    dk = delta(M.r, M.c).key
    for T, c in M.nf.t.items():
        main = [(f, e) for f, e in T.facs if f.fv & {M.r, M.c}]
        oth = tuple((f, e) for f, e in T.facs if not (f.fv & {M.r, M.c}))
        if T.bounds and any(f.fv & set(T.bounds) for f, e in main):
            return None
        if len(main) != 1 or main[0][1] != 1:
            return None
        f = main[0][0]
        if T.bounds:
            return None
        if isinstance(f, Iv) and nfac(f).key == dk:
            g.addT(Term((), oth), c)
            continue
        if not isinstance(f, Sp):
            return None
        if f.i.key == rk and f.j.key == ck:
            fl = False
        elif f.i.key == ck and f.j.key == rk:
            fl = True
        else:
            return None
        if M1 is None:
            M1, flip = f.M, fl
        elif M1.key != f.M.key or (fl != flip and not M1.isreal):
            return None
        g.add_nf(mul(NF({Term((), oth): c}), f.g))
    if M1 is None:
        return None
    return g.nf(), M1, flip


def eig_split(M):
    """M = sum_k V[:,k] h(k) V[:,k]^H with V the eigenvectors of one matrix, possibly plus multiples of the identity:
    (H, k, h, flip)"""
    rk, ck = toP(M.r).key, toP(M.c).key
    dk = delta(M.r, M.c).key
    H = None
    kk = fresh(M.size, "k")
    acc = const(0)
    seen = False
    for T, c in M.nf.t.items():
        b, facs = openT(T)
        main = [(f, e) for f, e in facs if f.fv & {M.r, M.c}]
        oth = [(f, e) for f, e in facs if not (f.fv & {M.r, M.c})]
        if any(isinstance(e, NF) and e.fv & {M.r, M.c} for f, e in facs):
            return None
        if len(main) == 1 and main[0][1] == 1 and isinstance(main[0][0], Iv) and nfac(main[0][0]).key == dk:
            acc = acc + from_raw(Raw(c, b, oth))
            continue
        if len(main) != 2 or any(not isinstance(f, EV) or e != 1 for f, e in main):
            return None
        (f1, _), (f2, _) = main
        if f1.M.key != f2.M.key or f1.k.key != f2.k.key or not (f1.M.isreal or f1.cj != f2.cj):
            return None
        if f1.M.fv & {M.r, M.c} or not same(f1.M.size, M.size):
            return None
        if f1.i.key == ck:
            f1, f2 = f2, f1
        if f1.i.key != rk or f2.i.key != ck:
            return None
        fl = f1.cj and not f1.M.isreal
        w = [v for v in b if toP(v).key == f1.k.key]
        if len(w) != 1 or w[0] in f1.M.fv:
            return None
        if H is None:
            H, flip = f1.M, fl
        elif H.key != f1.M.key or fl != flip:
            return None
        seen = True
        e = from_raw(Raw(c, [v for v in b if v is not w[0]], oth))
        acc = acc + e.sub({w[0]: toP(kk)})
    if not seen:
        return None
    return H, kk, acc, flip


def kron_split(M):
    """(A, B, b) with M = A kron B"""
    if M._split is not None and "kron" in M._split:
        return M._split["kron"]
    res = _kron_split(M)
    M._split = dict(M._split or {}, kron=res)
    return res


def _kron_split(M):
    t = mono(M.nf)
    if t is None:
        return None
    # candidate block sizes: from idiv / imod functions of r, c
    bs = {}
    for f, e in t[1].facs:
        for v in f.fv:
            if isinstance(v, IF) and v.name in ("idiv", "imod") and v.args[0].key in (toP(M.r).key, toP(M.c).key):
                bs[v.args[1].key] = v.args[1]
    for b in bs.values():
        a = PL.pdiv_exact(M.size, b)
        if a is None:
            continue
        q1, q2, r1, r2 = fresh(a), fresh(a), fresh(b), fresh(b)
        n = M.nf.sub({M.r: b * q1 + toP(r1), M.c: b * q2 + toP(r2)})
        m = mono(n)
        if m is None:
            continue
        c, T = m
        bd, facs = openT(T)
        # connected components through bound variables
        left, right = [], []
        lb, rb = set(), set()
        ok = True
        groups = {}
        todo = list(facs)
        comp = []
        while todo:
            cur = [todo.pop()]
            vs = set(cur[0][0].fv)
            ch = True
            while ch:
                ch = False
                for x in list(todo):
                    if x[0].fv & vs & set(bd):
                        cur.append(x)
                        todo.remove(x)
                        vs |= x[0].fv
                        ch = True
            comp.append((cur, vs))
        L, R = [], []
        Lb, Rb = [], []
        for cur, vs in comp:
            ql = bool(vs & {q1, q2})
            rr = bool(vs & {r1, r2})
            if ql and rr:
                ok = False
                break
            (R if rr else L).extend(cur)
            (Rb if rr else Lb).extend([x for x in bd if x in vs])
        if not ok:
            continue
        A = mat_from(from_raw(Raw(c, Lb, L)), q1, q2, a)
        B = mat_from(from_raw(Raw((1, 0), Rb, R)), r1, r2, b)
        if any(v in A.fv for v in (r1, r2)) or any(v in B.fv for v in (q1, q2)):
            continue
        return A, B, b
    return None


def real_split(M):
    """(Z, p): M is the realification [[Re Z, -Im Z],[Im Z, Re Z]] of a complex p x p matrix Z"""
    if M._split is not None and "real" in M._split:
        return M._split["real"]
    res = None
    p = None
    q, rr = PL._pdiv(M.size, toP(2))
    if not rr.t and q.const() is None or (not rr.t and q.const() is not None and q.const() >= 1):
        p = q
        if any(isinstance(f, Iv) for T in M.nf.t for f, e in T.facs):
            u, v = fresh(p), fresh(p)
            n00 = M.at(toP(u), toP(v))
            n11 = M.at(p + u, p + v)
            if n00.key == n11.key:
                n10 = M.at(p + u, toP(v))
                n01 = M.at(toP(u), p + v)
                if (n10 + n01).iszero() and isreal(n00) and isreal(n10):
                    Z = mat_from(n00 + scale(n10, (0, 1)), u, v, p)
                    res = (Z, p)
    M._split = dict(M._split or {}, real=res)
    return res


def realify_entry(z, p, i, j):
    """entry (i,j) of the realification of the matrix z(.,.)"""
    out = Acc()
    for a in (0, 1):
        gi = mk_iv("ge", p - i - 1) if a == 0 else mk_iv("ge", i - p)
        if not gi.t:
            continue
        ii = i - p if a else i
        for b in (0, 1):
            gj = mk_iv("ge", p - j - 1) if b == 0 else mk_iv("ge", j - p)
            if not gj.t:
                continue
            jj = j - p if b else j
            e = z(ii, jj)
            if a == b:
                v = re(e)
            elif a == 1:
                v = im(e)
            else:
                v = -im(e)
            out.add_nf(mul(mul(gi, gj), v))
    return out.nf()


def chain(M):
    """M as a product of square matrices: list of (at, inv_at) left to right, or None"""
    if M._chain is not None:
        return M._chain or None
    M._chain = _chain(M) or ()
    return M._chain or None


def _chain(M):
    t = mono(M.nf)
    if t is None or t[0] != (1, 0):
        return None
    T = t[1]
    if not T.bounds:
        return None
    facs = list(T.facs)
    if any(e != 1 for f, e in facs):
        return None
    if any(b.size.key != M.size.key for b in T.bounds):
        return None
    cur, end = toP(M.r).key, toP(M.c).key
    bk = {toP(b).key for b in T.bounds}
    out = []
    used = set()
    while True:
        nxt = [n for n, (f, e) in enumerate(facs) if n not in used and cur in _mat_idx(f)]
        if len(nxt) != 1:
            return None
        f = facs[nxt[0]][0]
        used.add(nxt[0])
        a, b = _mat_idx(f)
        if f.fv & set(T.bounds) - f_idxvars(f):
            return None
        tr = (a != cur)
        other = a if tr else b
        g = _mat_acc(f, tr)
        if g is None:
            return None
        out.append(g)
        if other == end:
            break
        if other not in bk:
            return None
        cur = other
    if len(used) != len(facs):
        return None
    return out


def f_idxvars(f):
    if isinstance(f, (Sp, Ch)):
        return set(f.i.vars() | f.j.vars())
    if isinstance(f, EV):
        return set(f.i.vars() | f.k.vars())
    if isinstance(f, At):
        return set(pfv(f.idx))
    return set()


def _mat_idx(f):
    if isinstance(f, (Sp, Ch)):
        return (f.i.key, f.j.key)
    if isinstance(f, EV):
        return (f.i.key, f.k.key)
    if isinstance(f, At) and len(f.idx) == 2:
        return (f.idx[0].key, f.idx[1].key)
    return ()


INVERTIBLE = set()     # names of general atoms declared invertible


def _mat_acc(f, tr):
    sw = (lambda g: (lambda i, j: g(j, i))) if tr else (lambda g: g)
    if isinstance(f, Sp):
        gi = npow(f.g, -1)
        return (sw(lambda i, j: mk_sp(f.g, f.M, i, j)), sw(lambda i, j: mk_sp(gi, f.M, i, j)), f, tr)[:2]
    if isinstance(f, Ch):
        return (sw(lambda i, j: nfac(Ch(f.M, i, j, f.cj, f.inv))), sw(lambda i, j: nfac(Ch(f.M, i, j, f.cj, not f.inv))))
    if isinstance(f, EV):
        return (sw(lambda i, j: nfac(EV(f.M, i, j, f.cj))), sw(lambda i, j: nfac(EV(f.M, j, i, not f.cj))))
    if isinstance(f, At) and f.name in INVERTIBLE:
        def inv(i, j):
            r, c = fresh(ONE), fresh(ONE)
            raise NotImplementedError
        return None
    return None


# ------------------------------------------------------------------ determinants
def mk_det(M):
    if one(M):
        return M.at(ZERO, ZERO)
    if isinstance(M, MSym):
        return nfac(Det(M))
    if not M.nf.t:
        return const(0)
    s, M2 = mat_content(M)
    if s is not None:
        return mul(npow(s, enorm(fromP(M.size))), mk_det(M2))
    d = diag_of(M)
    if d is not None and not (d.fv & {M.r}):
        return npow(d, enorm(fromP(M.size)))
    t = mono(M.nf)
    rk, ck = toP(M.r).key, toP(M.c).key
    if t and t[0] == (1, 0) and not t[1].bounds and len(t[1].facs) == 1 and t[1].facs[0][1] == 1:
        f = t[1].facs[0][0]
        if isinstance(f, Sp) and set((f.i.key, f.j.key)) == {rk, ck}:
            r = _det_g(f.g, f.M)
            if r is not None:
                return r
        if isinstance(f, Ch) and not f.cj and set((f.i.key, f.j.key)) == {rk, ck}:
            return npow(mk_det(f.M), F(-1, 2) if f.inv else F(1, 2))
    h = as_function_of_one(M)
    if h is not None:
        r = _det_g(h[0], h[1])
        if r is not None:
            return r
    kr = kron_split(M)
    if kr is not None:
        A, B, b = kr
        return mul(npow(mk_det(A), enorm(fromP(b))), npow(mk_det(B), enorm(fromP(A.size))))
    rz = real_split(M)
    if rz is not None:
        dz = mk_det(rz[0])
        return mul(dz, conj(dz))
    if t and t[0] == (1, 0) and t[1].bounds:
        ch = chain(M)
        if ch is not None and len(ch) >= 2:
            out = const(1)
            for at, _ in ch:
                r, c = fresh(M.size), fresh(M.size)
                out = mul(out, mk_det(mat_from(at(toP(r), toP(c)), r, c, M.size)))
            return out
    return nfac(Det(M))


def _det_g(g, M):
    e = gpower(g)
    if g.key == LAM.key:
        return mk_det(M) if isinstance(M, MSym) else nfac(Det(M))
    if e is not None:
        return npow(mk_det(M), e)
    m = mono(g)
    if m and not m[1].bounds:
        out = const(1)
        n = enorm(fromP(M.size))
        if m[0] != (1, 0):
            out = mul(out, npow(const(m[0]), n))
        ok = True
        for f, e in m[1].facs:
            if not depends_lam(f):
                out = mul(out, npow(npow(nfac(f), e), n))
            elif isinstance(f, At) and f.name == "~":
                out = mul(out, npow(mk_det(M), e))
            elif isinstance(f, Fn) and f.name == "exp" and e == 1:
                b = fresh(M.size)
                out = mul(out, mk_exp(nsum(mk_sp(f.args[0], M, toP(b), toP(b)), b)))
            elif isinstance(f, (Base, Fn)) and m != (0, 0):
                if len(m[1].facs) == 1 and m[0] == (1, 0) and e == 1:
                    return None
                ge = NF({Term((), ((f, F(1)),)): (1, 0)})
                r, c = fresh(M.size), fresh(M.size)
                out = mul(out, npow(mk_det(MLam(M.size, r, c, mk_sp(ge, M, toP(r), toP(c)))), e))
            else:
                ok = False
        if ok:
            return out
    return None


# ------------------------------------------------------------------ term simplification
def simplify(raw):
    """list of (Term, coef)"""
    out = []
    todo = [raw]
    n = 0
    while todo:
        r = todo.pop()
        n += 1
        if n > 40000:
            raise NFLimit("simplify")
        res = step(r)
        if res is None:
            continue
        if isinstance(res, list):
            todo.extend(res)
        else:
            out.append(res)
    return out


def rtimes(c, bounds, facs, nf):
    """raw terms for (c, bounds, facs) * nf"""
    out = []
    for T, k in nf.t.items():
        b, f = openT(T)
        out.append(Raw(cmul(c, k), list(bounds) + b, list(facs) + f))
    return out


def step(raw):
    c = raw.c
    if c == (0, 0):
        return None
    # merge factors
    d = {}
    obj = {}
    exps = None
    for f, e in raw.facs:
        if isinstance(f, NFac) or (isinstance(f, Base) and eint(e) and e > 0 and f.key not in d):
            others = list(raw.facs)
            others.remove((f, e))
            # merge Base with other powers of itself first
            tot = e
            rest = []
            for g, x in others:
                if g.key == f.key:
                    tot = eadd(tot, x)
                else:
                    rest.append((g, x))
            if isinstance(f, Base) and not (eint(tot) and tot > 0):
                raw = Raw(c, raw.bounds, rest + ([(f, tot)] if not (not isinstance(tot, NF) and tot == 0) else []))
                return [raw]
            return rtimes(c, raw.bounds, rest, npow(f.nf, tot) if not (tot == 1) else f.nf)
        if isinstance(f, Fn) and f.name == "exp":
            a = f.args[0] if (not isinstance(e, NF) and e == 1) else mul(toNF(e), f.args[0])
            exps = a if exps is None else exps + a
            continue
        k = f.key
        if k in d:
            d[k] = eadd(d[k], e)
        else:
            d[k] = e
            obj[k] = f
    if exps is not None and exps.t:
        f = Fn("exp", [exps])
        # exp(E*log x) parts
        for T, cc in exps.t.items():
            if any(isinstance(g, Fn) and g.name == "log" for g, e in T.facs) and not T.bounds:
                facs = [(obj[k], d[k]) for k in d]
                ne = mk_exp(exps)
                m = mono(ne)
                if not (m and len(m[1].facs) == 1 and m[1].facs[0][0].key == f.key):
                    return rtimes(c, raw.bounds, facs, ne)
                break
        d[f.key] = F(1)
        obj[f.key] = f
    bounds = list(raw.bounds)
    for k in list(d):
        e = d[k]
        f = obj[k]
        if not isinstance(e, NF):
            if e == 0:
                del d[k]
                continue
            if isinstance(f, Num):
                n = e.numerator // e.denominator
                if n:
                    c = cmul(c, (F(f.n) ** n, 0))
                    d[k] = e - n
                    if d[k] == 0:
                        del d[k]
            elif isinstance(f, Iv):
                d[k] = F(1)
            elif isinstance(f, Base) and eint(e) and e > 0:
                facs = [(obj[x], d[x]) for x in d if x != k]
                return rtimes(c, bounds, facs, npow(f.nf, e))
            elif isinstance(f, Base) and e > 1:
                n = e.numerator // e.denominator
                facs = [(obj[x], d[x]) for x in d if x != k] + [(f, e - n)]
                return rtimes(c, bounds, facs, npow(f.nf, n))
            elif isinstance(f, Fn) and f.name == "abs" and eint(e) and e % 2 == 0:
                facs = [(obj[x], d[x]) for x in d if x != k]
                return rtimes(c, bounds, facs, npow(f.args[0], e))
        elif isinstance(f, Num) or True:
            # symbolic exponent with a constant part on Base: keep merged
            pass
    facs = [(obj[k], d[k]) for k in d]
    # ---- Iverson rules
    for f, e in facs:
        if not isinstance(f, Iv):
            continue
        v = mk_iv(f.kind, f.p)
        cv = v.const()
        if cv is not None:
            if cv == (0, 0):
                return None
            return [Raw(c, bounds, [x for x in facs if x[0] is not f])]
        m = mono(v)
        if not (m and len(m[1].facs) == 1 and m[1].facs[0][0].key == f.key):
            return rtimes(c, bounds, [x for x in facs if x[0] is not f], v)
        if f.kind == "eq":
            for b in bounds:
                ab = f.p.lin(b) if b in f.p.top_vars() else None
                if ab and ab[0].const() in (1, -1):
                    ex = ab[1].scale(-F(1) / ab[0].const())
                    rest = [x for x in facs if x[0] is not f]
                    mp = {b: ex}
                    rr = [Raw(c, [x for x in bounds if x is not b], [])]
                    nb = []
                    for x in rr[0].bounds:
                        if b in x.size.vars():
                            raise NFLimit("dependent bound")
                    g = [mk_iv("ge", ex), mk_iv("ge", b.size - ex - 1)]
                    for h in g:
                        rr = times_pow(rr, h, F(1))
                    for x, xe in rest:
                        if isinstance(xe, NF):
                            xe = enorm(xe.sub(mp))
                        rr = times_pow(rr, x.sub(mp) if x.fv & mp.keys() else nfac(x), xe)
                    return rr
            # row and column of the same upper-triangular position coincide: that position is the diagonal one
            tv = sorted(f.p.top_vars(), key=lambda v: v.key)
            if len(tv) == 2 and all(isinstance(v, IF) and v.name in ("triu_r", "triu_c") for v in tv) and tv[0].name != tv[1].name \
                    and tv[0].args[0].key == tv[1].args[0].key and tv[0].args[1].key == tv[1].args[1].key:
                n_, x_ = tv[0].args
                mp = {IF("triu_i", (n_, toP(u), toP(w))): x_ for u in tv for w in tv}
                rest = [x for x in facs if x[0] is not f]
                if any(x.fv & mp.keys() for x, _ in rest):
                    rr = [Raw(c, bounds, [(f, F(1))])]
                    for x, xe in rest:
                        if isinstance(xe, NF):
                            xe = enorm(xe.sub(mp))
                        rr = times_pow(rr, x.sub(mp) if x.fv & mp.keys() else nfac(x), xe)
                    return rr
            # equality between free indices: substitute the larger-named by the other in the rest
            ss = _eq_subst(f, facs, bounds)
            if ss is not None:
                v_, ex = ss
                rest = [x for x in facs if x[0] is not f]
                if any(v_ in x.fv for x, _ in rest):
                    mp = {v_: ex}
                    rr = [Raw(c, bounds, [(f, F(1))])]
                    for x, xe in rest:
                        if isinstance(xe, NF):
                            xe = enorm(xe.sub(mp))
                        rr = times_pow(rr, x.sub(mp) if x.fv & mp.keys() else nfac(x), xe)
                    return rr
        else:
            for b in bounds:
                ab = f.p.lin(b) if b in f.p.top_vars() else None
                if not ab or ab[0].const() is None:
                    continue
                a = F(ab[0].const())
                if abs(a) != 1:
                    continue
                bnd = ab[1]
                if any(not isinstance(v, Dim) for v in bnd.vars()):
                    continue
                rest = [x for x in facs if x[0] is not f]
                if a == 1:      # b >= -bnd
                    L = -bnd
                    if not (ge0(L) and ge0(b.size - L)):
                        continue
                    w = fresh(b.size - L)
                    mp = {b: toP(w) + L}
                    if PL.same(b.size, L):
                        return None
                else:           # b <= bnd
                    U = bnd + 1
                    if not (ge0(U) and ge0(b.size - U)):
                        continue
                    if not PL.nrm(U).t:
                        return None
                    w = fresh(U)
                    mp = {b: toP(w)}
                rr = [Raw(c, [x for x in bounds if x is not b] + [w], [])]
                for x, xe in rest:
                    if isinstance(xe, NF):
                        xe = enorm(xe.sub(mp))
                    rr = times_pow(rr, x.sub(mp) if x.fv & mp.keys() else nfac(x), xe)
                return rr
    ges = [f for f, e in facs if isinstance(f, Iv) and f.kind == "ge"]
    if len(ges) > 1:
        for f in ges:
            for g in ges:
                if f is g:
                    continue
                if ge0(-f.p - g.p - 1):
                    return None             # both cannot hold
                if ge0(f.p - g.p):          # f is implied by g
                    return [Raw(c, bounds, [x for x in facs if x[0] is not f])]
    # ---- unused bounds, constant sizes
    for b in bounds:
        used = any(b in f.fv or (isinstance(e, NF) and b in e.fv) for f, e in facs) or any(b in x.size.vars() for x in bounds if x is not b)
        sz = PL.nrm(b.size)
        if not used:
            rest = [x for x in bounds if x is not b]
            return rtimes(c, rest, facs, fromP(sz))
        cs = sz.const()
        if cs is not None and cs <= 3:
            if cs <= 0:
                return None
            out = []
            for v in range(int(cs)):
                mp = {b: toP(v)}
                rr = [Raw(c, [x for x in bounds if x is not b], [])]
                for x, xe in facs:
                    if isinstance(xe, NF):
                        xe = enorm(xe.sub(mp))
                    rr = times_pow(rr, x.sub(mp) if x.fv & mp.keys() else nfac(x), xe)
                out += rr
            return out
    # ---- split bound over idiv / imod
    for b in bounds:
        for f, e in facs:
            if b in f.fv:
                for v in f.fv:
                    if isinstance(v, IF) and v.name in ("idiv", "imod"):
                        ab = v.args[0].lin(b) if b in v.args[0].top_vars() else None
                        if ab and ab[0].const() == 1 and not ab[1].t:
                            m = v.args[1]
                            q = PL.pdiv_exact(b.size, m)
                            if q is not None:
                                w1, w2 = fresh(q), fresh(m)
                                mp = {b: m * w1 + toP(w2)}
                                rr = [Raw(c, [x for x in bounds if x is not b] + [w1, w2], [])]
                                for x, xe in facs:
                                    if isinstance(xe, NF):
                                        xe = enorm(xe.sub(mp))
                                    rr = times_pow(rr, x.sub(mp) if x.fv & mp.keys() else nfac(x), xe)
                                return rr
    # ---- contractions
    r = contract(c, bounds, facs)
    if r is not None:
        return r
    # ---- division by a Base whose leading term divides the monomial
    for f, e in facs:
        if isinstance(f, Base) and not isinstance(e, NF) and e < 0:
            r = divide(c, bounds, facs, f, e)
            if r is not None:
                return r
    # ---- radicals: f^(e1) with Base(f^..)?  none
    return canon(c, bounds, facs)


def _eq_subst(f, facs, bounds):
    p = f.p
    cand = []
    for v in p.top_vars():
        if isinstance(v, IV) and v not in bounds:
            ab = p.lin(v)
            if ab and ab[0].const() in (1, -1):
                cand.append((v, ab[1].scale(-F(1) / ab[0].const())))
    if not cand:
        return None
    # substitute the variable with the largest key by an expression in smaller ones
    v, ex = max(cand, key=lambda x: x[0].key)
    if v in ex.vars():
        return None
    return v, ex


def contract(c, bounds, facs):
    for b in bounds:
        occ = [(n, f, e) for n, (f, e) in enumerate(facs) if b in f.fv]
        if any(isinstance(e, NF) and b in e.fv for f, e in facs):
            continue
        bk = toP(b).key
        # eigenvector pair over k with spectral weights
        evs = [(n, f) for n, f, e in occ if isinstance(f, EV) and e == 1 and f.k.key == bk]
        if len(evs) == 2:
            (n1, f1), (n2, f2) = evs
            if f1.M.key == f2.M.key and (f1.cj != f2.cj or f1.M.isreal) and b not in f1.i.vars() and b not in f2.i.vars() and b not in f1.M.fv:
                g = const(1)
                ok = True
                M = f1.M
                elk = EL(M, toP(b)).key
                for n, f, e in occ:
                    if n in (n1, n2):
                        continue
                    h = npow(subfac(nfac(f), lambda x: LAM if x.key == elk else None), e)
                    if b in h.fv:
                        ok = False
                        break
                    g = mul(g, h)
                if ok:
                    if f1.cj:
                        f1, f2 = f2, f1
                    rest = [x for n, x in enumerate(facs) if n not in [o[0] for o in occ]]
                    return rtimes(c, [x for x in bounds if x is not b], rest, mk_sp(g, M, f1.i, f2.i))
        # pure function of the spectrum: SUM_k h(l_k) = trace h(M)
        if occ and all(not isinstance(f, EV) for n, f, e in occ):
            els = [x for n, f, e in occ for x in find_el(f, b)]
            if els:
                M = els[0].M
                elk = EL(M, toP(b)).key
                g = const(1)
                ok = b not in M.fv
                if ok:
                    for n, f, e in occ:
                        h = npow(subfac(nfac(f), lambda x: LAM if x.key == elk else None), e)
                        if b in h.fv:
                            ok = False
                            break
                        g = mul(g, h)
                if ok:
                    rest = [x for n, x in enumerate(facs) if n not in [o[0] for o in occ]]
                    w = fresh(M.size)
                    return rtimes(c, [x for x in bounds if x is not b], rest, nsum(mk_sp(g, M, toP(w), toP(w)), w))
        # trace of g(A B A^H): only the spectrum matters, which depends on A through A^H A
        if len(occ) == 1 and isinstance(occ[0][1], Sp) and occ[0][2] == 1:
            f = occ[0][1]
            if f.i.key == bk and f.j.key == bk and isinstance(f.M, MLam) and b not in f.M.fv and b not in f.g.fv:
                M2 = spec_canon(f.M)
                g2 = f.g
                if M2 is None or M2.key == f.M.key:
                    M2 = triple_inv(f.M)
                    if M2 is not None:
                        g2 = gsub(f.g, npow(LAM, -1))
                if M2 is not None and M2.key != f.M.key:
                    rest = [x for n, x in enumerate(facs) if n != occ[0][0]]
                    w = fresh(f.M.size)
                    return rtimes(c, [x for x in bounds if x is not b], rest, nsum(mk_sp(g2, M2, toP(w), toP(w)), w))
        # rows and columns of a real orthogonal matrix have unit norm
        if len(occ) == 1 and isinstance(occ[0][1], EV) and not isinstance(occ[0][2], NF) and occ[0][2] == 2 and occ[0][1].M.isreal and b not in occ[0][1].M.fv:
            f = occ[0][1]
            if (f.i.key == bk and b not in f.k.vars()) or (f.k.key == bk and b not in f.i.vars()):
                rest = [x for n, x in enumerate(facs) if n != occ[0][0]]
                return rtimes(c, [x for x in bounds if x is not b], rest, const(1))
        if len(occ) != 2:
            continue
        (n1, f1, e1), (n2, f2, e2) = occ
        if e1 != 1 or e2 != 1:
            continue
        r = pair(f1, f2, b, bk)
        if r is None:
            r = pair(f2, f1, b, bk)
        if r is not None:
            rest = [x for n, x in enumerate(facs) if n not in (n1, n2)]
            return rtimes(c, [x for x in bounds if x is not b], rest, r)
    # conj-transposed reconstruction of composite matrices M, M^-1 next to g(M)
    return refold(c, bounds, facs)


def spec_canon(M):
    """a matrix with the same spectrum in canonical form: A B A^H (A square, invertible) has the spectrum of
    (A^H A)^1/2 B (A^H A)^1/2, and X^1/2 Y X^1/2 that of Y^1/2 X Y^1/2"""
    if not M.herm:
        return None
    acc = Acc()
    hit = False
    rk, ck = toP(M.r).key, toP(M.c).key
    n = 0
    for T, k in M.nf.t.items():
        bounds, facs = openT(T)
        left = right = None
        for x, (f, e) in enumerate(facs):
            if e != 1 or not isinstance(f, Ch):
                continue
            for side, kk in (("l", rk), ("r", ck)):
                if f.inv and f.i.key == kk:
                    v = (x, f, f.j, "inv", f.cj)
                elif not f.inv and f.j.key == kk:
                    v = (x, f, f.i, "adj", not f.cj)
                else:
                    continue
                if side == "l":
                    left = v
                else:
                    right = v
        if left and right and left[0] != right[0] and left[1].M.key == right[1].M.key and left[3] == right[3] and (left[4] != right[4] or left[1].M.isreal):
            X = left[1].M
            g = npow(LAM, F(-1, 2) if left[3] == "inv" else F(1, 2))
            rest = [fe for x, fe in enumerate(facs) if x not in (left[0], right[0])]
            # entries of A (left) and of A^H (right); a conjugated left factor means A = conj(...)
            a = mk_sp(g, X, toP(M.r), left[2])
            z = mk_sp(g, X, right[2], toP(M.c))
            if left[4] and not X.isreal and left[3] == "inv" or (left[3] == "adj" and not left[4] and not X.isreal):
                a, z = mk_sp(g, X, left[2], toP(M.r)), mk_sp(g, X, toP(M.c), right[2])
            for rr in rtimes(k, bounds, rest, mul(a, z)):
                acc.add_raw(rr)
            hit = True
        elif hit:
            return None
        else:
            n += 1
    if hit and not n:
        nf2 = acc.nf()
        return mat_from(nf2, M.r, M.c, M.size)
    # X^1/2 Y X^1/2  /  Y^1/2 X Y^1/2
    t = mono(M.nf)
    if t and t[0] == (1, 0) and len(t[1].facs) == 3 and len(t[1].bounds) == 2:
        fs = [f for f, e in t[1].facs if e == 1 and isinstance(f, Sp)]
        if len(fs) == 3:
            a = [f for f in fs if rk in (f.i.key, f.j.key)]
            z = [f for f in fs if ck in (f.i.key, f.j.key)]
            if len(a) == 1 and len(z) == 1 and a[0] is not z[0]:
                a, z = a[0], z[0]
                m, = [f for f in fs if f is not a and f is not z]
                ok_ = a.M.key == z.M.key and a.g.key == z.g.key and gpos(a.g, a.M) and gpos(m.g, m.M) and (m.M.key, m.g.key) < (a.M.key, a.g.key)
                fwd = a.i.key == rk and z.j.key == ck
                bwd = a.j.key == rk and z.i.key == ck
                if ok_ and (fwd or bwd):
                    mi = a.j.key if fwd else a.i.key
                    tr = m.i.key != mi
                    if (not tr) == fwd or m.M.isreal:
                        u, v = fresh(M.size), fresh(M.size)
                        h = npow(m.g, F(1, 2))
                        q = mul(a.g, a.g)
                        e = lambda g, MM, i, j: mk_sp(g, MM, i, j) if fwd else mk_sp(g, MM, j, i)
                        nf2 = nsum(nsum(nprod([e(h, m.M, toP(M.r), toP(u)), e(q, a.M, toP(u), toP(v)), e(h, m.M, toP(v), toP(M.c))]), u), v)
                        return mat_from(nf2, M.r, M.c, M.size)
    return None


def triple_inv(M):
    """inverse of X^e Y^-q X^e with the positive power in the middle, or None"""
    t = mono(M.nf)
    if not (t and t[0] == (1, 0) and len(t[1].facs) == 3 and len(t[1].bounds) == 2):
        return None
    rk, ck = toP(M.r).key, toP(M.c).key
    if any(e != 1 or not isinstance(f, Sp) or gpower(f.g) is None or isinstance(gpower(f.g), NF) for f, e in t[1].facs):
        return None
    m = [f for f, e in t[1].facs if rk not in (f.i.key, f.j.key) and ck not in (f.i.key, f.j.key)]
    if len(m) != 1 or gpower(m[0].g) >= 0:
        return None
    nf2 = mk_sp(npow(LAM, -1), M, toP(M.r), toP(M.c))
    M2 = mat_from(nf2, M.r, M.c, M.size)
    return M2 if M2.key != M.key and not isinstance(M2, MSym) and mono(nf2) and len(mono(nf2)[1].facs) == 3 else None


def find_el(f, b):
    if isinstance(f, EL):
        return [f] if b in f.k.vars() else []
    if isinstance(f, Base):
        return [x for T in f.nf.t for g, e in T.facs for x in find_el(g, b)]
    if isinstance(f, Fn):
        return [x for a in f.args for T in a.t for g, e in T.facs for x in find_el(g, b)]
    return []


def pair(f, g, b, bk):
    """contraction SUM_b f g for two factors each containing b once"""
    if isinstance(f, Sp) and isinstance(g, Sp) and f.M.key == g.M.key and b not in f.M.fv:
        M = f.M
        if b in f.g.fv or b in g.g.fv:
            return None
        pf = [k for k, x in (("i", f.i), ("j", f.j)) if b in x.vars()]
        pg = [k for k, x in (("i", g.i), ("j", g.j)) if b in x.vars()]
        if len(pf) != 1 or len(pg) != 1:
            return None
        if getattr(f, pf[0]).key != bk or getattr(g, pg[0]).key != bk:
            return None
        if pf[0] == "j" and pg[0] == "i":
            return mk_sp(mul(f.g, g.g), M, f.i, g.j)
        if pf[0] == "i" and pg[0] == "j":
            return mk_sp(mul(f.g, g.g), M, g.i, f.j)
        if M.isreal and M.herm:
            a = f.i if pf[0] == "j" else f.j
            d = g.i if pg[0] == "j" else g.j
            return mk_sp(mul(f.g, g.g), M, a, d)
        return None
    if isinstance(f, EV) and isinstance(g, EV) and f.M.key == g.M.key and b not in f.M.fv:
        if f.i.key == bk and g.i.key == bk and (f.cj != g.cj or f.M.isreal) and b not in f.k.vars() and b not in g.k.vars():
            return delta(f.k, g.k)
        return None
    if isinstance(f, Sp) and isinstance(g, EV) and f.M.key == g.M.key and g.i.key == bk and b not in g.k.vars() and b not in f.M.fv:
        el = nfac(EL(f.M, g.k))
        if not g.cj or f.M.isreal:
            if f.j.key == bk and b not in f.i.vars():
                return mul(gsub(f.g, el), nfac(EV(g.M, f.i, g.k, g.cj)))
        if g.cj or f.M.isreal:
            if f.i.key == bk and b not in f.j.vars():
                return mul(gsub(f.g, el), nfac(EV(g.M, f.j, g.k, g.cj)))
        return None
    if isinstance(f, Ch) and isinstance(g, Ch) and f.M.key == g.M.key and b not in f.M.fv:
        M = f.M
        # L L^H = M : SUM_b L[i,b] conj(L[j,b])
        if not f.inv and not g.inv and f.j.key == bk and g.j.key == bk and (M.isreal or f.cj != g.cj):
            a, d = (f, g) if not f.cj else (g, f)
            return mk_sp(LAM, M, a.i, d.i)
        # L^-H L^-1 = M^-1 : SUM_b conj(Li[b,i]) Li[b,j] = M^-1[i,j]
        if f.inv and g.inv and f.i.key == bk and g.i.key == bk and (M.isreal or f.cj != g.cj):
            a, d = (f, g) if f.cj else (g, f)
            if M.isreal:
                a, d = f, g
            return mk_sp(G_INV, M, a.j, d.j)
        # L L^-1 = I
        if f.inv != g.inv and f.cj == g.cj:
            if f.j.key == bk and g.i.key == bk:
                return delta(f.i, g.j)
        return None
    if isinstance(f, Sp) and isinstance(g, Ch) and f.M.key == g.M.key and b not in f.M.fv:
        M = f.M
        # M^-1 L = L^-H ; L^H M^-1 = L^-1 ;  M L^-H = L ; L^-1 M = L^H
        if isinvg(f.g) and not g.inv and g.i.key == bk:
            if (not g.cj or M.isreal) and f.j.key == bk:
                return nfac(Ch(M, g.j, f.i, True, True))
            if (g.cj or M.isreal) and f.i.key == bk:
                return nfac(Ch(M, g.j, f.j, False, True))
        if f.g.key == LAM.key and g.inv and g.j.key == bk:
            if (g.cj or M.isreal) and f.j.key == bk:
                # SUM_b M[i,b] conj(Li[k,b]) = L[i,k]
                return nfac(Ch(M, f.i, g.i, False, False))
            if (not g.cj or M.isreal) and f.i.key == bk:
                # SUM_b Li[k,b] M[b,j] = conj(L[j,k])
                return nfac(Ch(M, f.j, g.i, True, False))
        return None
    return None


def refold(c, bounds, facs):
    """g(M) with M a composite product next to the spelled-out factors of M or M^-1: fold them"""
    comps = [(n, f) for n, (f, e) in enumerate(facs) if isinstance(f, Sp) and isinstance(f.M, MLam) and e == 1]
    if not comps:
        return None
    bset = set(bounds)
    for n, f in comps:
        M = f.M
        for gg in ((LAM, G_INV) if M.nf.t else ()):
            if gg is LAM and not _foldable(M.nf, n, facs) or gg is G_INV and (G_INV.key, M.key, PL.CTX.stamp) in _plain_memo:
                continue
            for side in ("j", "i"):
                b = getattr(f, side)
                bv = [v for v in bounds if toP(v).key == b.key]
                if not bv:
                    continue
                bv = bv[0]
                other = f.i if side == "j" else f.j
                if bv in other.vars() or bv in M.fv:
                    continue
                # pattern: SUM_.. gg(M)[b, X] with X a fresh end
                X = fresh(M.size, "x")
                pat = mk_sp(gg, M, b, toP(X)) if side == "j" else mk_sp(gg, M, toP(X), b)
                m = mono(pat)
                if m is None or not m[1].bounds or m[0] != (1, 0):
                    continue
                pb, pf = openT(m[1])
                if any(e != 1 for _, e in pf) or len(pf) < 2:
                    continue
                hit = match_sub(pf, pb, X, [(k, x) for k, x in enumerate(facs) if k != n], bset, bv)
                if hit is None:
                    continue
                used, asg, xe = hit
                inner = {asg[v] for v in pb}
                rest = [x for k, x in enumerate(facs) if k != n and k not in used]
                if any((v in g.fv) for v in inner | {bv} for g, _ in rest):
                    continue
                if side == "j":
                    r = mk_sp(mul(f.g, gg), M, f.i, xe)
                else:
                    r = mk_sp(mul(f.g, gg), M, xe, f.j)
                return rtimes(c, [x for x in bounds if x not in inner and x is not bv], rest, r)
    return None


def _slotkey(h):
    if isinstance(h, Sp):
        return (h.g.key, h.M.key)
    if isinstance(h, Ch):
        return (h.M.key, h.cj, h.inv)
    if isinstance(h, EV):
        return (h.M.key, h.cj)
    if isinstance(h, At):
        return (h.name, h.cj)
    return None


def _foldable(nf, n, facs):
    """can the entry expression be found among the other factors at all (cheap test)"""
    m = mono(nf)
    if m is None or m[0] != (1, 0) or not m[1].bounds or len(m[1].facs) < 2:
        return False
    have = set()
    for k, (f, e) in enumerate(facs):
        if k != n and e == 1:
            have.add((type(f), _slotkey(f)))
    for f, e in m[1].facs:
        if e != 1:
            return False
        s = _slotkey(f)
        if s is None:
            return False
        if isinstance(f, At) or not f.M.fv:
            if (type(f), s) not in have:
                return False
    return True


def match_sub(pf, pb, X, pool, bset, bv):
    """match pattern factors pf (bound pb, free end X) inside pool; returns (used indices, {pb->bound}, expr for X)"""
    pbs = set(pb)

    def rec(k, used, asg, xe):
        if k == len(order):
            return used, asg, xe
        f = order[k]
        for n, (g, e) in pool:
            if n in used or e != 1 or type(g) is not type(f):
                continue
            m = unify(f, g, pbs, X, asg, xe, bset)
            if m is None:
                continue
            r = rec(k + 1, used | {n}, m[0], m[1])
            if r is not None:
                return r
        return None
    order = [f for f, e in pf]
    r = rec(0, frozenset(), {}, None)
    if r is None or r[2] is None or len(r[1]) != len(pbs) or len(set(r[1].values())) != len(pbs):
        return None
    if bv in r[1].values():
        return None
    return r


def unify(f, g, pbs, X, asg, xe, bset):
    def slots(h):
        if isinstance(h, Sp):
            return (h.g.key, h.M.key), (h.i, h.j)
        if isinstance(h, Ch):
            return (h.M.key, h.cj, h.inv), (h.i, h.j)
        if isinstance(h, EV):
            return (h.M.key, h.cj), (h.i, h.k)
        if isinstance(h, At):
            return (h.name, h.cj, tuple(p.key for p in h.params)), h.idx
        return None
    sf, sg = slots(f), slots(g)
    if sf is None or sg is None or sf[0] != sg[0] or len(sf[1]) != len(sg[1]):
        return None

    def tryp(fi, gi):
        a = dict(asg)
        x = xe
        for p, q in zip(fi, gi):
            v = None
            if len(p.t) == 1:
                (m, cc), = p.t.items()
                if cc == 1 and len(m) == 1:
                    v = m[0]
            if v is not None and v in pbs:
                w = next((b for b in bset if toP(b).key == q.key), None)
                if w is None:
                    return None
                if a.get(v, w) != w:
                    return None
                a[v] = w
            elif v is not None and v == X:
                if x is not None and x.key != q.key:
                    return None
                x = q
            elif p.key != q.key:
                return None
        return a, x
    r = tryp(sf[1], sg[1])
    if r is None and isinstance(f, Sp) and f.M.isreal and f.M.herm:
        r = tryp(sf[1], (sg[1][1], sg[1][0]))
    return r


def lead_term(nf):
    """leading term of a Base expression, for division"""
    best = None
    for T, c in nf.t.items():
        if T.bounds:
            continue
        if not T.facs or any(not (eint(e) and e > 0) for f, e in T.facs):
            continue
        k = (sum(int(e) for f, e in T.facs), T.key)
        if best is None or k > best[0]:
            best = (k, T, c)
    if best:
        return best[1], best[2]
    if len(nf.t) == 1:
        (T, c), = nf.t.items()
        return T, c
    return None


def divide(c, bounds, facs, f, e):
    lt_ = lead_term(f.nf)
    if lt_ is None:
        return None
    T, ct = lt_
    if not T.bounds:
        d = {g.key: x for g, x in facs}
        for g, x in T.facs:
            y = d.get(g.key)
            if y is None or isinstance(y, NF) or not y >= x:
                return None
        need = {g.key: x for g, x in T.facs}
        rest = []
        for g, x in facs:
            if g.key in need:
                x = x - need[g.key]
                if x == 0:
                    continue
            rest.append((g, x))
    else:
        # sum-matching: the terms's factors appear with private bound variables
        bset = set(bounds)
        pb, pf = openT(T)
        if any(not eint(x) or x != 1 for g, x in pf):
            return None
        used = match_all(pf, pb, list(enumerate(facs)), bset)
        if used is None:
            return None
        idx, asg = used
        inner = set(asg.values())
        rest = [x for k, x in enumerate(facs) if k not in idx]
        if any(v in g.fv for v in inner for g, _ in rest):
            return None
        bounds = [b for b in bounds if b not in inner]
    # term = T * rest' (rest' contains f^e):  T = (f - sum others)/ct
    ic = cinv(ct)
    new = []
    r1 = []
    done = False
    for g, x in rest:
        if g.key == f.key and not done:
            done = True
            if x + 1 != 0:
                r1.append((g, x + 1))
        else:
            r1.append((g, x))
    out = [Raw(cmul(c, ic), list(bounds), r1)]
    others = NF({T2: k for T2, k in f.nf.t.items() if T2.key != T.key})
    if others.t:
        out += rtimes(cmul(c, cmul(ic, (-1, 0))), bounds, rest, others)
    return out


def match_all(pf, pb, pool, bset):
    pbs = set(pb)
    order = [f for f, e in pf]

    def rec(k, used, asg):
        if k == len(order):
            return used, asg
        f = order[k]
        for n, (g, e) in pool:
            if n in used or e != 1 or type(g) is not type(f):
                continue
            if not (f.fv & pbs):
                if f.key != g.key:
                    continue
                r = rec(k + 1, used | {n}, asg)
            else:
                m = unify(f, g, pbs, None, asg, None, bset)
                if m is None:
                    continue
                r = rec(k + 1, used | {n}, m[0])
            if r is not None:
                return r
        return None
    r = rec(0, frozenset(), {})
    if r is None or len(set(r[1].values())) != len(pbs):
        return None
    return r


# ------------------------------------------------------------------ canonical naming
def canon(c, bounds, facs):
    if not bounds:
        facs = tuple(sorted(facs, key=lambda x: (x[0].key, ekey(x[1]))))
        return Term((), facs), c
    lv = 1 + max([max(f.level, e.level if isinstance(e, NF) else 0) for f, e in facs])
    names = best_order(bounds, facs)
    mp = {}
    nb = []
    for k, b in enumerate(names):
        w = IV("b%d_%d" % (lv, k), b.size)
        mp[b] = w
    # sizes that mention other bounds
    final = []
    for b in names:
        w = mp[b]
        if b.size.vars() & set(bounds):
            w = IV(w.name, b.size.sub({x: toP(mp[x]) for x in bounds}))
            mp[b] = w
        final.append(w)
    m2 = {b: toP(w) for b, w in mp.items()}
    nf_ = []
    for f, e in facs:
        g = ren(f, m2)
        if isinstance(g, NFac):
            # renaming exposed a simplification: redo
            m3 = {w: toP(b) for b, w in mp.items()}
            return _redo(c, bounds, facs)
        nf_.append((g, enorm(e.sub(m2)) if isinstance(e, NF) else e))
    nf_ = tuple(sorted(nf_, key=lambda x: (x[0].key, ekey(x[1]))))
    return Term(tuple(final), nf_), c


def _redo(c, bounds, facs):
    raise NFLimit("renaming changed a factor")


_sig_memo = {}


def _sig(f, e, b, col):
    """key of the factor with b marked and the other bound variables replaced by their colours"""
    mp = {}
    for v in f.fv:
        if v in col:
            mp[v] = toP(IV("@!" if v is b or v == b else "@%d" % col[v], v.size))
    k = (f.key, tuple(sorted((v.key, p.key) for v, p in mp.items())))
    r = _sig_memo.get(k)
    if r is None:
        r = f.sub(mp).key
        _sig_memo[k] = r
    return r + "^" + ekey(e)


def best_order(bounds, facs):
    if len(bounds) == 1:
        return list(bounds)
    col = {}
    keys = sorted({b.size.key for b in bounds})
    for b in bounds:
        col[b] = keys.index(b.size.key)

    def refine(col):
        while True:
            sig = {}
            for b in bounds:
                sig[b] = (col[b], tuple(sorted(_sig(f, e, b, col) for f, e in facs if b in f.fv)))
            vals = sorted(set(sig.values()))
            new = {b: vals.index(sig[b]) for b in bounds}
            if len(vals) == len(set(col.values())):
                return new
            col = new

    col = refine(col)

    def search(col):
        groups = {}
        for b in bounds:
            groups.setdefault(col[b], []).append(b)
        tie = [g for k, g in sorted(groups.items()) if len(g) > 1]
        if not tie:
            order = sorted(bounds, key=lambda b: col[b])
            m = {b: toP(IV("@%d" % k, b.size)) for k, b in enumerate(order)}
            key = "*".join(sorted(f.sub(m).key + "^" + ekey(e) for f, e in facs))
            return key, order
        g = tie[0]
        best = None
        for b in g:
            c2 = {x: 2 * col[x] + 1 for x in bounds}
            c2[b] = 2 * col[b]
            r = search(refine(c2))
            if best is None or r[0] < best[0]:
                best = r
        return best
    return search(col)[1]


# ------------------------------------------------------------------ misc
def renorm(n):
    """rebuild under the current facts"""
    ds = PL.CTX.dimsub
    if ds:
        n = n.sub(ds)
    return subfac(n, lambda f: None)


def show(n, lim=1500):
    def fs(f, e):
        s = f.key
        return s if (not isinstance(e, NF) and e == 1) else "%s^%s" % (s, ekey(e))
    parts = []
    for T, c in sorted(n.t.items(), key=lambda x: x[0].key):
        s = cstr(c) if c != (1, 0) or not T.facs else ""
        for b in T.bounds:
            s += " S[%s]" % b.key
        s += " " + " * ".join(fs(f, e) for f, e in T.facs)
        parts.append(s.strip())
    r = " + ".join(parts) or "0"
    return r if len(r) < lim else r[:lim] + "..."


def eq(a, b):
    if a.key == b.key:
        return True
    d = add(a, scale(b, (-1, 0)))
    return not d.t


G_INV = npow(LAM, -1)
