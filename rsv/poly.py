"""Integer index / dimension polynomials.

P  : polynomial with rational coefficients over variables
Dim: a symbolic array size (an integer >= its declared minimum, default 1)
IV : an index variable ranging over [0, size)
IF : an integer-valued index function (idiv, imod, triangular enumeration ...)
"""
from fractions import Fraction
from functools import lru_cache
import hashlib
import itertools


def short(s):
    if len(s) > 240:
        return s[:24] + "~" + hashlib.blake2b(s.encode(), digest_size=14).hexdigest()
    return s


class V:
    __slots__ = ("key", "_h")

    def __eq__(self, o):
        return isinstance(o, V) and self.key == o.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.key


class Dim(V):
    __slots__ = ("name", "min")

    def __init__(self, name, min=1):
        self.name = name
        self.min = min
        self.key = name
        self._h = hash(name)


class IV(V):
    __slots__ = ("name", "size")

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.key = name + "<" + size.key
        self._h = hash(self.key)


class IF(V):
    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name = name
        self.args = args
        self.key = short(name + "(" + ",".join(a.key for a in args) + ")")
        self._h = hash(self.key)


_fresh = itertools.count()


def fresh(size, pre="t"):
    return IV("%s%d" % (pre, next(_fresh)), size)


class P:
    __slots__ = ("t", "key", "_h", "_vars")

    def __init__(self, t):
        # t : dict mono -> Fraction|int, no zeros
        self.t = t
        items = sorted(((tuple(v.key for v in m), c) for m, c in t.items()))
        self.key = short("+".join((str(c) if not m else ("" if c == 1 else str(c) + "*") + "*".join(m)) for m, c in items) or "0")
        self._h = hash(self.key)
        self._vars = None

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            return self.const() == o
        return isinstance(o, P) and self.key == o.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.key

    def const(self):
        """rational value, or None when not constant"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        o = toP(o)
        t = dict(self.t)
        for m, c in o.t.items():
            x = t.get(m, 0) + c
            if x == 0:
                t.pop(m, None)
            else:
                t[m] = x
        return P(t)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-toP(o))

    def __rsub__(self, o):
        return toP(o) - self

    def __mul__(self, o):
        o = toP(o)
        t = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                mm = tuple(sorted(m + m2, key=lambda v: v.key))
                x = t.get(mm, 0) + c * c2
                if x == 0:
                    t.pop(mm, None)
                else:
                    t[mm] = x
        return P(t)

    __rmul__ = __mul__

    def scale(self, c):
        if c == 0:
            return P({})
        return P({m: norm(Fraction(x) * c) for m, x in self.t.items()})

    def vars(self):
        """all variables, including those inside index functions and IV sizes are NOT included"""
        if self._vars is None:
            s = set()
            for m in self.t:
                for v in m:
                    s.add(v)
                    if isinstance(v, IF):
                        for a in v.args:
                            s |= a.vars()
            self._vars = frozenset(s)
        return self._vars

    def top_vars(self):
        return {v for m in self.t for v in m}

    def sub(self, mp):
        if not mp:
            return self
        vs = self.vars()
        if not any(v in vs for v in mp):
            # sizes of bound variables never need substitution unless dims are replaced
            if not any(isinstance(v, Dim) for v in mp):
                return self
        r = P({})
        for m, c in self.t.items():
            x = P({(): c})
            for v in m:
                if v in mp:
                    x = x * mp[v]
                elif isinstance(v, IF):
                    x = x * mkif(v.name, tuple(a.sub(mp) for a in v.args))
                elif isinstance(v, IV) and any(isinstance(k, Dim) for k in mp):
                    x = x * toP(IV(v.name, v.size.sub(mp)))
                else:
                    x = x * toP(v)
            r = r + x
        return r

    def lin(self, v):
        """(a, b) with self == a*v + b and v not in a, b; None if not linear (or v hidden in an IF)"""
        a = {}
        b = {}
        for m, c in self.t.items():
            n = m.count(v)
            if n == 0:
                b[m] = c
            elif n == 1:
                l = list(m)
                l.remove(v)
                a[tuple(l)] = c
            else:
                return None
        a, b = P(a), P(b)
        if v in a.vars() or v in b.vars():
            return None
        return a, b


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def toP(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return P({(): 1}) if x else P({})
    if isinstance(x, (int, Fraction)):
        x = norm(x)
        return P({(): x}) if x else P({})
    if isinstance(x, V):
        return P({(x,): 1})
    raise TypeError("toP %r" % (x,))


ZERO = toP(0)
ONE = toP(1)


# ---------------------------------------------------------------- context
POS = {}      # key -> expression, for every positivity fact


class Ctx:
    """facts usable for index reasoning on the current path"""

    _n = 0

    def __init__(self):
        self.dimsub = {}      # Dim -> P   (solved equalities)
        self.ge = []          # list of P known >= 0 (dims only)
        self.pos = set()      # keys of scalar expressions known > 0
        self.stamp = 0        # 0: no facts

    def clone(self):
        c = Ctx()
        c.dimsub, c.ge, c.pos = dict(self.dimsub), list(self.ge), set(self.pos)
        if c.dimsub or c.ge or c.pos:
            c.bump()
        return c

    def bump(self):
        Ctx._n += 1
        self.stamp = Ctx._n

    def add_ge(self, p):
        if self.ge and any(q.key == p.key for q in self.ge):
            return
        if self is CTX and any(isinstance(v, Dim) and p.lin(v) is not None and p.lin(v)[0].const() in (1, -1) for v in p.top_vars()) and ge0(-p):
            # p >= 0 and -p >= 0
            return self.add_eq(nrm(p))
        self._add_ge(p)

    def _add_ge(self, p):
        self.ge.append(p)
        self.bump()

    def add_pos(self, n):
        """the scalar expression n is known to be positive"""
        POS[n.key] = n
        if n.key not in self.pos:
            self.pos.add(n.key)
            self.bump()

    def add_eq(self, p):
        """p == 0; solve for a dim when possible"""
        for v in sorted(p.top_vars(), key=lambda v: v.key):
            if isinstance(v, Dim):
                ab = p.lin(v)
                if ab and ab[0].const() in (1, -1):
                    e = ab[1].scale(-1 / Fraction(ab[0].const()))
                    for k in list(self.dimsub):
                        self.dimsub[k] = self.dimsub[k].sub({v: e})
                    self.dimsub[v] = e
                    self.bump()
                    return
        self._add_ge(p)
        self._add_ge(-p)


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def nrm(p):
    """normalise modulo known dimension equalities (index variables keep their identity)"""
    ds = CTX.dimsub
    if ds and any(v in ds for v in p.vars()):
        return _dsub(p, ds)
    return p


def _dsub(p, ds):
    r = P({})
    for m, c in p.t.items():
        x = P({(): c})
        for v in m:
            if v in ds:
                x = x * ds[v]
            elif isinstance(v, IF):
                x = x * mkif(v.name, tuple(_dsub(a, ds) for a in v.args))
            else:
                x = x * toP(v)
        r = r + x
    return r


def same(p, q):
    p, q = toP(p), toP(q)
    if p.key == q.key:
        return True
    if CTX.dimsub:
        return nrm(p).key == nrm(q).key
    return False


_ge_cache = {}


def ge0(p):
    """True if p >= 0 is proved for all variable values in range"""
    p = nrm(toP(p))
    k = (p.key, CTX.stamp)
    r = _ge_cache.get(k)
    if r is None:
        r = _ge0(p, 0)
        if not r and CTX.ge:
            r = _ge0_facts(p)
        _ge_cache[k] = r
    return r


def _ge0_facts(p):
    for f in CTX.ge:
        f = nrm(f)
        for c in (1, 2):
            q = p - f.scale(c)
            if _ge0(q, 0):
                return True
    return False


def _rng(v):
    """(lo, hi) inclusive bounds of a variable as P"""
    if isinstance(v, IV):
        return ZERO, v.size - 1
    if isinstance(v, IF):
        if v.name == "imod":
            return ZERO, v.args[1] - 1
        if v.name == "triu_r":
            return ZERO, toP(IF("triu_c", v.args))
        if v.name == "triu_c":
            return ZERO, v.args[0] - 1
        if v.name == "tril_r":
            return ZERO, v.args[0] - 1
        if v.name == "tril_c":
            return ZERO, toP(IF("tril_r", v.args))
        if v.name == "idiv":
            return ZERO, None
        if v.name in ("triu_i", "tril_i"):
            n = v.args[0]
            return ZERO, (n * (n + 1)).scale(Fraction(1, 2)) - 1
        if v.name in ("perm", "sel"):
            return ZERO, v.args[0] - 1
    return None, None


def _ge0(p, depth):
    c = p.const()
    if c is not None:
        return c >= 0
    if depth > 12:
        return False
    vs = [v for v in p.top_vars() if not isinstance(v, Dim)]
    if vs:
        # eliminate triu_r / tril_c first (their upper bound mentions the other)
        def pri(v):
            n = v.name if isinstance(v, IF) else ""
            dep = sum(1 for u in vs if isinstance(v, IV) and u is not v and u in v.size.vars())
            return (0 if n in ("triu_r", "tril_c") else 1, -dep, v.key)
        for v in sorted(vs, key=pri):
            ab = p.lin(v)
            if ab is None:
                continue
            a, b = ab
            lo, hi = _rng(v)
            if lo is None:
                continue
            if _ge0(a, depth + 1):
                return _ge0(b + a * lo, depth + 1)
            if hi is not None and _ge0(-a, depth + 1):
                return _ge0(b + a * hi, depth + 1)
            return False
        return False
    # dims only: shift by minimum
    if any(v.min is None for v in p.top_vars()):
        return False
    mp = {v: toP(v) + v.min for v in p.top_vars() if v.min}
    q = p.sub(mp) if mp else p
    return all(c >= 0 for c in q.t.values())


def lt(p, q):
    return ge0(toP(q) - p - 1)


# ---------------------------------------------------------------- index functions
def mkif(name, args):
    """simplifying constructor; returns P"""
    if name == "idiv":
        return idivmod(args[0], args[1])[0]
    if name == "imod":
        return idivmod(args[0], args[1])[1]
    if name in ("triu_r", "triu_c", "tril_r", "tril_c"):
        n, t = args
        if len(t.t) == 1:
            (m, c), = t.t.items()
            if c == 1 and len(m) == 1 and isinstance(m[0], IF) and m[0].name == name[:4] + "_i" and m[0].args[0].key == n.key:
                return m[0].args[1] if name.endswith("r") else m[0].args[2]
    if name in ("triu_i", "tril_i"):
        n, i, j = args
        pre = name[:4]
        for v in i.top_vars():
            if isinstance(v, IF) and v.name == pre + "_r" and i.key == toP(v).key and v.args[0].key == n.key:
                w = toP(IF(pre + "_c", v.args))
                if j.key == w.key:
                    return v.args[1]
            # outside its domain (row > column, where every use is guarded by a bracket) the index is extended symmetrically
            if isinstance(v, IF) and v.name == pre + "_c" and i.key == toP(v).key and v.args[0].key == n.key:
                if j.key == toP(IF(pre + "_r", v.args)).key:
                    return v.args[1]
    return toP(IF(name, tuple(args)))


def idivmod(e, m):
    """floor division of index polynomial e by m > 0, using ranges; returns (q, r) as P"""
    e, m = nrm(toP(e)), nrm(toP(m))
    if m.key == "1":
        return e, ZERO
    if len(e.t) == 1:
        (mono, c), = e.t.items()
        if c == 1 and len(mono) == 1 and isinstance(mono[0], IF) and mono[0].name == "idiv" and ge0(mono[0].args[0]):
            # floor(floor(x / a) / m) = floor(x / (a m))
            x, a = mono[0].args
            q = idivmod(x, a * m)[0]
            return q, e - q * m
    # split e = m*q0 + r0 syntactically (polynomial division by the monomials of m)
    q0, r0 = _pdiv(e, m)
    if ge0(r0) and lt(r0, m):
        return q0, r0
    if not r0.t:
        return q0, ZERO
    # negative remainder one step away
    if ge0(r0 + m) and ge0(-r0 - 1):
        return q0 - 1, r0 + m
    # r0 in [m, 2m)
    if ge0(r0 - m) and lt(r0, m.scale(2)):
        return q0 + 1, r0 - m
    # split off constants/other when r0 = c + rest not in range: leave opaque
    return q0 + toP(IF("idiv", (r0, m))), toP(IF("imod", (r0, m)))


def _pdiv(e, m):
    """e = m*q + r ; single-monomial m handled exactly; general m by leading monomial"""
    if len(m.t) == 1:
        (mm, mc), = m.t.items()
        q = {}
        r = {}
        for mono, c in e.t.items():
            l = list(mono)
            ok = True
            for v in mm:
                if v in l:
                    l.remove(v)
                else:
                    ok = False
                    break
            if ok:
                if not mm:
                    cq, cr = divmod(c, mc)
                    if cq:
                        q[tuple(l)] = cq
                    if cr:
                        r[mono] = norm(cr)
                    continue
                cq = Fraction(c) / mc
                if cq.denominator == 1:
                    q[tuple(l)] = int(cq)
                    continue
            r[mono] = c
        # constants: fractional constant parts stay in r
        return P(q), P(r)
    # general: try exact polynomial division by leading monomial (max degree)
    lead = max(m.t, key=lambda mo: (len(mo), tuple(v.key for v in mo)))
    q = ZERO
    r = e
    for _ in range(8):
        hit = None
        for mono, c in r.t.items():
            l = list(mono)
            ok = True
            for v in lead:
                if v in l:
                    l.remove(v)
                else:
                    ok = False
                    break
            if ok and (Fraction(c) / m.t[lead]).denominator == 1:
                hit = (tuple(l), int(Fraction(c) / m.t[lead]))
                break
        if hit is None:
            break
        f = P({hit[0]: hit[1]})
        q = q + f
        r = r - f * m
    return q, r


def pdiv_exact(e, m):
    q, r = _pdiv(nrm(toP(e)), nrm(toP(m)))
    return q if not r.t else None


def floor_div(e, m):
    """floor of e/m for dims-only polynomials with rational results; None when unknown"""
    q, r = idivmod(e, m)
    return q, r


def psqrt(p):
    """exact square root of a polynomial (perfect square), or None"""
    p = nrm(p)
    c = p.const()
    if c is not None:
        from math import isqrt
        c = Fraction(c)
        if c < 0:
            return None
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        return toP(Fraction(a, b)) if a * a == c.numerator and b * b == c.denominator else None
    lead = max(p.t, key=lambda mo: (len(mo), tuple(v.key for v in mo)))
    if len(lead) % 2:
        return None
    half = []
    l = list(lead)
    while l:
        v = l.pop(0)
        if v in l:
            l.remove(v)
            half.append(v)
        else:
            return None
    c = psqrt(toP(p.t[lead]))
    if c is None:
        return None
    s = P({tuple(half): c.const()})
    lm = tuple(half)
    lc = c.const()
    for _ in range(12):
        d = p - s * s
        if not d.t:
            return s
        # next term: lead(d) / (2*lead(s))
        ld = max(d.t, key=lambda mo: (len(mo), tuple(v.key for v in mo)))
        l = list(ld)
        for v in lm:
            if v in l:
                l.remove(v)
            else:
                return None
        s = s + P({tuple(l): norm(Fraction(d.t[ld]) / (2 * lc))})
    return None
