"""Path exploration, symbolic scalars / booleans, obligations."""
import time
from fractions import Fraction
import z3
from . import poly as PL
from . import nf as N
from .nf import NF, toNF, const, fromP
from .poly import P, Dim, IV, IF, toP

F = Fraction


class Unsupported(BaseException):
    """the code left the verified subset (never swallowed by 'except Exception')"""


class StopPath(BaseException):
    pass


class Restart(BaseException):
    """loop candidates changed: explore again"""


# ------------------------------------------------------------------ symbolic booleans
class SB:
    __slots__ = ("kind", "args", "key")

    def __init__(self, kind, args, key):
        self.kind, self.args, self.key = kind, args, key

    def __bool__(self):
        return RT.branch(self)

    def __invert__(self):
        return sb_not(self)

    def __and__(self, o):
        return sb_and([self, o])
    __rand__ = __and__

    def __or__(self, o):
        return sb_or([self, o])
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else sb_not(self)
        if isinstance(o, SB):
            return sb_or([sb_and([self, o]), sb_and([sb_not(self), sb_not(o)])])
        return False

    def __ne__(self, o):
        return sb_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "SB(" + self.key + ")"

    def __mul__(self, o):
        return Sc(N.nfac(N.At("[" + self.key + "]", (), False, True)), "int") * o
    __rmul__ = __mul__

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def __add__(self, o):
        return Sc(N.nfac(N.At("[" + self.key + "]", (), False, True)), "int") + o
    __radd__ = __add__

    def item(self):
        return self


def sb_tok(name, payload=None):
    return SB("tok", payload, name)


def sb_not(b):
    if isinstance(b, bool):
        return not b
    if b.kind == "not":
        return b.args
    return SB("not", b, "!(" + b.key + ")")


def sb_and(bs):
    out = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        if not isinstance(b, SB):
            if not b:
                return False
            continue
        out.append(b)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SB("and", out, "&(" + ",".join(sorted(b.key for b in out)) + ")")


def sb_or(bs):
    r = sb_and([sb_not(b) if isinstance(b, SB) else (not b) for b in bs])
    return sb_not(r) if isinstance(r, SB) else (not r)


def cmp_nf(d, op):
    """NF d  op  0"""
    c = d.const()
    if c is not None:
        if c[1] != 0 and op != "==":
            raise Unsupported("comparison of complex numbers")
        return {"==": c == (0, 0), ">": c[0] > 0, ">=": c[0] >= 0}[op]
    p = N.topoly(d)
    if p is not None:
        p = PL.nrm(p)
        cc = p.const()
        if cc is not None:
            return {"==": cc == 0, ">": cc > 0, ">=": cc >= 0}[op]
        den = 1
        from math import lcm
        for x in p.t.values():
            den = lcm(den, F(x).denominator)
        p = p.scale(den)
        if op == ">":
            if PL.ge0(p - 1):
                return True
            if PL.ge0(-p):
                return False
        elif op == ">=":
            if PL.ge0(p):
                return True
            if PL.ge0(-p - 1):
                return False
        else:
            if PL.ge0(p - 1) or PL.ge0(-p - 1):
                return False
        d = fromP(p)
    else:
        if not N.isreal(d) and op != "==":
            raise Unsupported("comparison of complex values: " + N.show(d, 200))
        if N.ispos(d):
            return op != "=="
        if N.ispos(-d):
            return False
    if op == "==" and (-d).key < d.key:
        d = -d
    return SB("cmp", (op, d), "%s %s0" % (d.key, op))


# ------------------------------------------------------------------ scalars
def isnum(x):
    return isinstance(x, (int, float, complex, Fraction)) and not isinstance(x, bool)


def nfof(x):
    if isinstance(x, Sc):
        return x.nf
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, SB):
        return N.nfac(N.At("[" + x.key + "]", (), False, True))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in arithmetic")
        return const(x)
    if isinstance(x, complex):
        return const(x)
    if isinstance(x, (P, PL.V, NF)):
        return toNF(x)
    import numbers
    if isinstance(x, numbers.Number):
        return const(float(x))
    raise TypeError("not a scalar: %r" % type(x))


RANK = {"bool": 0, "int": 1, "float": 2, "complex": 3, "object": 4}


def kind_of(x):
    if isinstance(x, (Sc,)):
        return x.kind
    if isinstance(x, (bool, SB)):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, (float, Fraction)):
        return "float"
    if isinstance(x, complex):
        return "complex"
    raise TypeError(type(x))


def join(*ks):
    return max(ks, key=lambda k: RANK[k])


def isinf(x):
    return isinstance(x, float) and x in (float("inf"), float("-inf"))


class Sc:
    """symbolic scalar; python int semantics when kind == 'int' and np is False"""
    __slots__ = ("nf", "kind", "np")
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, nf, kind="float", np=True):
        self.nf, self.kind, self.np = nf, kind, np

    # -- numpy scalar attributes
    @property
    def dtype(self):
        from .ten import DT
        return DT(self.kind)

    @property
    def real(self):
        return mk(N.re(self.nf), "float" if self.kind == "complex" else self.kind)

    @property
    def imag(self):
        return mk(N.im(self.nf), "float" if self.kind == "complex" else self.kind)

    def conjugate(self):
        return mk(N.conj(self.nf), self.kind)
    conj = conjugate

    @property
    def T(self):
        return self

    def item(self):
        return self

    def astype(self, d, **k):
        from .ten import DT
        return cast(self, DT.of(d).kind)

    def sum(self, *a, **k):
        return self
    mean = max = min = squeeze = copy = sum

    def reshape(self, *a):
        from . import ten
        return ten.asarr(self).reshape(*a)

    def __iter__(self):
        raise TypeError("iteration over a scalar")

    def __getitem__(self, k):
        from . import ten
        return ten.asarr(self)[k]

    # -- arithmetic
    def _bin(self, o, f, k=None):
        from . import ten
        if isinstance(o, ten.Arr):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            return NotImplemented
        try:
            ok = kind_of(o)
        except TypeError:
            return NotImplemented
        if isinf(o):
            raise Unsupported("arithmetic with inf")
        r = f(self.nf, nfof(o))
        kk = join(self.kind, ok)
        if kk == "bool":
            kk = "int"
        return mk(r, k(kk) if k else kk)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and self.kind == "int":
            return symlist_repeat(o, self)
        return self._bin(o, lambda a, b: N.mul(a, b))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: divnf(a, b), lambda k: join(k, "float"))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: divnf(b, a), lambda k: join(k, "float"))

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return modulo(self, o)

    def __rmod__(self, o):
        return modulo(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), modulo(self, o)

    def __pow__(self, o):
        from . import ten
        if isinstance(o, ten.Arr):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mk(-self.nf, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(N.mk_fn("abs", [self.nf]), "float" if self.kind == "complex" else self.kind)

    # -- comparisons
    def _cmp(self, o, f):
        from . import ten
        if isinstance(o, ten.Arr):
            return NotImplemented
        if not (isinstance(o, (Sc, SB)) or isnum(o) or isinstance(o, bool)):
            return NotImplemented
        return f(o)

    def __lt__(self, o):
        if isinf(o):
            return o > 0
        return self._cmp(o, lambda o: cmp_nf(nfof(o) - self.nf, ">"))

    def __le__(self, o):
        if isinf(o):
            return o > 0
        return self._cmp(o, lambda o: cmp_nf(nfof(o) - self.nf, ">="))

    def __gt__(self, o):
        if isinf(o):
            return o < 0
        return self._cmp(o, lambda o: cmp_nf(self.nf - nfof(o), ">"))

    def __ge__(self, o):
        if isinf(o):
            return o < 0
        return self._cmp(o, lambda o: cmp_nf(self.nf - nfof(o), ">="))

    def __eq__(self, o):
        if isinf(o):
            return False
        r = self._cmp(o, lambda o: cmp_nf(self.nf - nfof(o), "=="))
        return r

    def __ne__(self, o):
        if isinf(o):
            return True
        r = self._cmp(o, lambda o: cmp_nf(self.nf - nfof(o), "=="))
        if r is NotImplemented:
            return r
        return sb_not(r) if isinstance(r, SB) else (not r)

    def __hash__(self):
        return hash(self.nf.key)

    def __bool__(self):
        r = self.__eq__(0)
        if isinstance(r, SB):
            return bool(sb_not(r))
        return not r

    # -- conversions
    def __int__(self):
        r = to_int(self)
        if isinstance(r, int):
            return r
        raise Unsupported("int() of a symbolic value by native code")

    def __index__(self):
        c = self.nf.const()
        if c is not None and c[1] == 0 and F(c[0]).denominator == 1 and self.kind in ("int", "bool"):
            return int(c[0])
        raise Unsupported("symbolic index used by native code")

    def __float__(self):
        c = self.nf.const()
        if c is not None and c[1] == 0:
            return float(c[0])
        raise Unsupported("float() of a symbolic value by native code")

    def __complex__(self):
        c = self.nf.const()
        if c is not None:
            return complex(float(c[0]), float(c[1]))
        raise Unsupported("complex() of a symbolic value by native code")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "Sc(%s)" % N.show(self.nf, 200)

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __round__(self, n=None):
        if n is None:
            return to_int(self, "round")
        raise Unsupported("round to digits")

    def is_integer(self):
        p = as_poly(self)
        if p is not None and int_valued(p):
            return True
        raise Unsupported("is_integer")

    @property
    def __class_np__(self):
        return None


def mk(nf, kind="float", np=True):
    if not isinstance(nf, NF):
        nf = toNF(nf)
    return Sc(nf, kind, np)


def sint(p):
    """a python integer given by an index polynomial: plain int when constant"""
    p = PL.nrm(toP(p))
    c = p.const()
    if c is not None and F(c).denominator == 1:
        return int(c)
    return Sc(fromP(p), "int", False)


def cast(s, kind):
    if s.kind == "complex" and kind in ("float", "int"):
        return Sc(N.re(s.nf), kind)
    if kind == "int" and s.kind in ("float", "complex"):
        return Sc(N.mk_fn("trunc", [s.nf]), "int") if as_poly(s) is None or not int_valued(as_poly(s)) else Sc(s.nf, "int")
    return Sc(s.nf, kind)


DIV0 = []


def divnf(a, b):
    if b.iszero():
        raise ZeroDivisionError("division by zero")
    return N.mul(a, N.npow(b, -1))


def as_poly(x):
    """index polynomial value of an int-like scalar, or None"""
    if isinstance(x, bool):
        return toP(int(x))
    if isinstance(x, int):
        return toP(x)
    if isinstance(x, P):
        return x
    if isinstance(x, (float, Fraction)) and not isinf(x) and x == x:
        return toP(F(repr(x)) if isinstance(x, float) else x)
    if isinstance(x, Sc):
        p = N.topoly(x.nf)
        return PL.nrm(p) if p is not None else None
    return None


def int_valued(p):
    """integer-valued polynomial (on integer arguments)"""
    if all(F(c).denominator == 1 for c in p.t.values()):
        return True
    vs = sorted(p.top_vars(), key=lambda v: v.key)
    import itertools
    deg = {v: max(m.count(v) for m in p.t) for v in vs}
    if len(vs) > 4:
        return False
    for vals in itertools.product(*[range(deg[v] + 1) for v in vs]):
        q = p.sub({v: toP(x) for v, x in zip(vs, vals)})
        if F(q.const()).denominator != 1:
            return False
    return True


def to_int(x, mode="trunc"):
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, str):
        return int(x)
    if isinstance(x, float):
        return int(x) if mode == "trunc" else round(x)
    p = as_poly(x)
    if p is None:
        from . import ten
        if isinstance(x, ten.Arr) and x.ndim == 0:
            return to_int(x.item(), mode)
        raise Unsupported("int() of %s" % (x,))
    c = p.const()
    if c is not None:
        c = F(c)
        if mode == "round":
            return round(c)
        return int(c)
    if int_valued(p):
        return sint(p)
    # floor of a polynomial with a fractional part: p >= 0 required for trunc == floor
    den = 1
    from math import lcm
    for k in p.t.values():
        den = lcm(den, F(k).denominator)
    q, r = PL.idivmod(p.scale(den), toP(den))
    if mode == "trunc" and PL.ge0(p.scale(den)):
        return sint(q)
    raise Unsupported("int() of %s" % p)


def floordiv(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is None or pb is None or not int_valued(pa) or not int_valued(pb):
        raise Unsupported("floor division")
    if not PL.ge0(pb - 1):
        raise Unsupported("floor division by a possibly non-positive value")
    return sint(PL.idivmod(pa, pb)[0])


def modulo(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is None or pb is None or not int_valued(pa) or not int_valued(pb):
        raise Unsupported("modulo")
    if not PL.ge0(pb - 1):
        raise Unsupported("modulo by a possibly non-positive value")
    return sint(PL.idivmod(pa, pb)[1])


def power(a, b):
    na, nb = nfof(a), nfof(b)
    k = join(kind_of(a), kind_of(b))
    c = nb.const()
    if kind_of(b) != "int" and kind_of(b) != "bool":
        k = join(k, "float")
    elif c is not None and c[0] < 0:
        k = join(k, "float")
    if c is None and not N.isreal(nb):
        raise Unsupported("complex exponent")
    if c is not None and c[1] != 0:
        raise Unsupported("complex exponent")
    if N.enorm(nb) == 0:
        return mk(const(1), k)
    if na.iszero():
        return mk(na, k)
    return mk(N.npow(na, N.enorm(nb)), k)


def symlist_repeat(o, n):
    raise Unsupported("list repetition with symbolic count")


# ------------------------------------------------------------------ solver
class Z:
    """translation of scalar facts to z3 (nonlinear sub-terms become variables)"""

    def __init__(self):
        self.v = {}
        self.side = []

    def fac(self, f):
        x = self.v.get(f.key)
        if x is None:
            if isinstance(f, N.Ix):
                x = z3.ToReal(z3.Int(f.key))
                v = f.v
                if isinstance(v, Dim) and v.min is not None:
                    self.side.append(z3.Int(f.key) >= v.min)
                elif isinstance(v, IV):
                    self.side.append(z3.Int(f.key) >= 0)
                    self.side.append(x <= self.poly(v.size) - 1)
            elif isinstance(f, N.At) and f.name.startswith("int:"):
                x = z3.ToReal(z3.Int(f.key))
            else:
                x = z3.Real(f.key)
                if f.pos:
                    self.side.append(x > 0)
            self.v[f.key] = x
        return x

    def poly(self, p):
        return self.nf(fromP(p))

    def nf(self, n):
        tot = z3.RealVal(0)
        for T, c in n.t.items():
            if c[1] != 0:
                return self.opaque(n)
            if T.bounds:
                k = "T:" + T.key
                t = self.v.get(k)
                if t is None:
                    t = self.v[k] = z3.Real(k)
                    if N.posterm(T):
                        self.side.append(t > 0)
            else:
                t = z3.RealVal(1)
                for f, e in T.facs:
                    if not isinstance(e, NF) and e.denominator == 1 and 0 < e <= 4:
                        for _ in range(int(e)):
                            t = t * self.fac(f)
                    else:
                        k = "E:" + f.key + "^" + N.ekey(e)
                        x = self.v.get(k)
                        if x is None:
                            x = self.v[k] = z3.Real(k)
                            if f.pos:
                                self.side.append(x > 0)
                            if not isinstance(e, NF) and e.denominator == 1 and -3 <= e < 0 and f.real:
                                y = self.fac(f)
                                yy = y
                                for _ in range(int(-e) - 1):
                                    yy = yy * y
                                self.side.append(z3.Implies(y != 0, x * yy == 1))
                        t = t * x
            tot = tot + z3.Q(F(c[0]).numerator, F(c[0]).denominator) * t
        return tot

    def opaque(self, n):
        k = "O:" + n.key
        if k not in self.v:
            self.v[k] = z3.Real(k)
        return self.v[k]

    def sb(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.kind == "cmp":
            op, d = b.args
            x = self.nf(d)
            return {"==": x == 0, ">": x > 0, ">=": x >= 0}[op]
        if b.kind == "not":
            return z3.Not(self.sb(b.args))
        if b.kind == "and":
            return z3.And([self.sb(x) for x in b.args])
        return z3.Bool("B:" + b.key)


class Runtime:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.obl = []          # obligations of this check
        self.solver_s = 0.0
        self.solver_calls = 0
        self.scenario = ""
        self.trace = []
        self.paths = 0
        self.reset_path([])

    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.facts = []
        self.pending = []
        self.log = []
        self.events = []
        self.ndraw = 0
        self.draws = []
        self.names = {}
        self.loopstack = []
        self.locs = []
        self.orbits = []
        self.exits = []
        self.on_continue = None
        self.on_solve = None
        self.rng = None
        PL.set_ctx(PL.Ctx())

    # ---- solver
    def check(self, extra, timeout=4000):
        z = Z()
        s = z3.Solver()
        s.set("timeout", timeout)
        fs = [z.sb(f) for f in self.facts] + [z.sb(e) for e in extra]
        for g in PL.CTX.ge:
            fs.append(z.poly(g) >= 0)
        for d, e in PL.CTX.dimsub.items():
            fs.append(z.poly(toP(d)) == z.poly(e))
        s.add(fs)
        s.add(z.side)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.solver_calls += 1
        self.last_solver = s
        return r

    def proves(self, b):
        """do the path facts imply b?"""
        if isinstance(b, bool):
            return b
        return self.check([sb_not(b)]) == z3.unsat

    def proves_eq(self, b):
        """as proves, also recognising a recorded comparison whose term is provably equal to the goal's"""
        if self.proves(b):
            return True
        if isinstance(b, SB) and b.kind == "cmp":
            op, d = b.args
            for f in self.facts:
                g = f
                if g.kind == "not" and g.args.kind == "cmp":
                    o2, d2 = g.args.args
                    if o2 == "==":
                        continue
                    o2, d2 = (">=" if o2 == ">" else ">"), -d2
                elif g.kind == "cmp":
                    o2, d2 = g.args
                else:
                    continue
                if (o2 == op or (o2 == ">" and op == ">=")) and prove_eq(d, d2):
                    return True
        elif isinstance(b, SB) and b.kind == "not" and b.args.kind == "and":
            return any(self.proves_eq(sb_not(x)) for x in b.args.args)
        elif isinstance(b, SB) and b.kind == "not" and b.args.kind == "cmp" and b.args.args[0] != "==":
            op, d = b.args.args
            return self.proves_eq(cmp_nf(-d, ">=" if op == ">" else ">"))
        return False

    def feasible(self, b):
        if isinstance(b, bool):
            return b
        return self.check([b], 2000) != z3.unsat

    # ---- branching
    def assume(self, b, val=True):
        if isinstance(b, bool):
            if b != val:
                raise StopPath()
            return
        f = b if val else sb_not(b)
        self.facts.append(f)
        self._learn(f)

    def _learn(self, f):
        if f.kind == "and":
            for x in f.args:
                self._learn(x)
        elif f.kind == "cmp":
            op, d = f.args
            p = N.topoly(d)
            if p is not None and all(not isinstance(v, IV) for v in p.vars()):
                if op == "==":
                    PL.CTX.add_eq(p)
                elif op == ">":
                    PL.CTX.add_ge(p - 1)
                else:
                    PL.CTX.add_ge(p)
            elif op == ">":
                PL.CTX.add_pos(d)
                c, com = N.content(d, lambda f: f.pos)
                if c[1] == 0 and c[0] != 0:
                    PL.CTX.add_pos(N.scale(d, (1 / F(abs(c[0])), 0)))
        elif f.kind == "not" and f.args.kind == "cmp":
            op, d = f.args.args
            if op == ">":
                self._learn(SB("cmp", (">=", -d), ""))
            elif op == ">=":
                self._learn(SB("cmp", (">", -d), ""))

    def branch(self, b):
        if isinstance(b, bool):
            return b
        # already decided?
        if self.facts:
            for f in self.facts:
                if f.key == b.key:
                    return True
                if f.kind == "not" and f.args.key == b.key:
                    return False
                if b.kind == "not" and b.args.key == f.key:
                    return False
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            t = self.feasible(b)
            f = self.feasible(sb_not(b))
            if not t and not f:
                raise StopPath()
            if t and f:
                self.pending.append(self.taken + [False])
                v = True
            else:
                v = t
        self.taken.append(v)
        if len(self.taken) > 400:
            raise Unsupported("too many symbolic branches on one path")
        self.assume(b, v)
        return v

    def choose(self, n, label):
        """nondeterministic choice among n alternatives (all explored)"""
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for j in range(1, n):
                self.pending.append(self.taken + [j])
        self.taken.append(v)
        return v

    def explore(self, fn, maxpaths=400):
        """run fn on every path; fn receives nothing and reports through oblige()"""
        todo = [[]]
        done = 0
        while todo:
            pre = todo.pop()
            self.reset_path(pre)
            try:
                fn()
            except StopPath:
                pass
            todo.extend(self.pending)
            done += 1
            self.paths += 1
            if done > maxpaths:
                raise Unsupported("more than %d paths" % maxpaths)
        return done

    # ---- obligations
    def oblige(self, name, ok, detail="", backend="nf"):
        self.obl.append({"scenario": self.scenario, "name": name, "ok": bool(ok), "detail": detail if not ok else "", "backend": backend,
                         "facts": [f.key for f in self.facts][:12] if not ok else []})
        return bool(ok)

    def oblige_sb(self, name, b, detail=""):
        if isinstance(b, bool):
            return self.oblige(name, b, detail, "const")
        ok = self.proves(b)
        return self.oblige(name, ok, detail or ("not implied: " + b.key + " under " + " & ".join(f.key for f in self.facts)), "z3")

    def oblige_eq(self, name, a, b):
        ok = prove_eq(a, b)
        return self.oblige(name, ok, "" if ok else "code: %s\nspec: %s" % (N.show(a), N.show(b)), "nf")


def prove_eq(a, b):
    if a.key == b.key:
        return True
    d = a - b
    if d.iszero():
        return True
    d = N.renorm(d)
    if d.iszero():
        return True
    d = clear_denominators(d)
    if d.iszero():
        return True
    return prove_zero(d)


def clear_denominators(d):
    """multiply an equation d = 0 by the sums that occur in it raised to negative powers: where the equation is
    defined these are not zero, so the product vanishes exactly where d does"""
    for _ in range(6):
        low = {}
        for T in d.t:
            for f, e in T.facs:
                if isinstance(f, N.Base) and not isinstance(e, N.NF) and e < 0 and not (f.fv & set(T.bounds)):
                    low[f] = min(low.get(f, e), e)
        for f in sorted(low, key=lambda f: (f.level, f.key)):
            es = [dict(T.facs).get(f, 0) for T in d.t]
            if any(isinstance(e, N.NF) or (e - low[f]).denominator != 1 for e in es):
                continue
            try:
                d2 = N.div_content(d, (1, 0), {f: low[f]})
            except N.NFLimit:
                continue
            break
        else:
            return d
        d = N.renorm(d2)
        if d.iszero():
            return d
    return d


def prove_zero(d, depth=0):
    if d.iszero():
        return True
    if depth > 8:
        return False
    # split a free index of composite size (idiv/imod) or at Iverson breakpoints
    for T in d.t:
        for f, e in T.facs:
            for v in f.fv:
                if isinstance(v, IF) and v.name in ("idiv", "imod"):
                    iv = [w for w in v.args[0].top_vars() if isinstance(w, IV) and w in T.fv]
                    for w in iv:
                        ab = v.args[0].lin(w)
                        q = PL.pdiv_exact(w.size, v.args[1])
                        if ab and ab[0].const() == 1 and q is not None:
                            w1, w2 = PL.fresh(q), PL.fresh(v.args[1])
                            return prove_zero(d.sub({w: v.args[1] * w1 + toP(w2)}), depth + 1)
    for T in d.t:
        for f, e in T.facs:
            if isinstance(f, N.Iv) and f.kind == "ge":
                for w in f.p.top_vars():
                    if isinstance(w, IV) and w not in T.bounds and w in d.fv:
                        ab = f.p.lin(w)
                        if ab and ab[0].const() in (1, -1) and all(isinstance(v, Dim) or (isinstance(v, IV) and v is not w and v not in T.bounds and w not in v.size.vars()) for v in ab[1].vars()):
                            cut = -ab[1] if ab[0].const() == 1 else ab[1] + 1
                            if PL.ge0(cut) and PL.ge0(w.size - cut):
                                w1, w2 = PL.fresh(cut), PL.fresh(w.size - cut)
                                one = lambda u: toP(0) if PL.same(u.size, toP(1)) else toP(u)
                                return prove_zero(N.renorm(d.sub({w: one(w1)})), depth + 1) and prove_zero(N.renorm(d.sub({w: one(w2) + cut})), depth + 1)
            if isinstance(f, N.Iv) and f.kind == "eq":
                # index fixed to a constant position: split
                for w in f.p.top_vars():
                    if isinstance(w, IV) and w in d.fv and w not in T.bounds:
                        ab = f.p.lin(w)
                        if ab and ab[0].const() in (1, -1) and all(isinstance(v, Dim) for v in ab[1].vars()):
                            at = ab[1].scale(-F(1) / ab[0].const())
                            if PL.ge0(at) and PL.ge0(w.size - 1 - at):
                                w1, w2 = PL.fresh(at), PL.fresh(w.size - at - 1)
                                ok = prove_zero(d.sub({w: at}), depth + 1)
                                if ok and PL.nrm(at).t:
                                    ok = prove_zero(d.sub({w: toP(w1)}), depth + 1)
                                return ok and prove_zero(d.sub({w: toP(w2) + at + 1}), depth + 1)
    r = _order_split(d, depth)
    if r:
        return True
    # diagonal split i == j / i != j is already canonical; triangular brackets [i<=j]
    for T in d.t:
        for f, e in T.facs:
            if isinstance(f, N.Iv) and f.kind == "ge":
                vs = [v for v in f.p.top_vars() if isinstance(v, IV)]
                if len(vs) == 2 and all(v in d.fv for v in vs):
                    r = _tri_split(d, f, depth)
                    if r is not None:
                        return r
    return False


def _order_split(d, depth):
    """brackets comparing two index expressions: cases E == 0, E >= 1, E <= -1"""
    for T in d.t:
        for f, e in T.facs:
            if not isinstance(f, N.Iv):
                continue
            p = f.p
            c0 = p.t.get((), 0)
            if c0 not in (-1, 0, 1):
                continue
            vs = [v for v in p.top_vars()]
            if any(v in T.bounds for v in p.vars()) or len([v for v in vs if not isinstance(v, Dim)]) < 2:
                continue
            E = p - c0
            u = None
            for v in sorted(vs, key=lambda v: (isinstance(v, IV), v.key)):
                if isinstance(v, Dim):
                    continue
                ab = E.lin(v)
                if ab and ab[0].const() in (1, -1):
                    u, rest = v, ab[1].scale(-F(1) / ab[0].const())
                    if v not in rest.vars():
                        break
                    u = None
            if u is None:
                continue

            def val(g, sgn):
                """value of bracket g when sgn * E >= 1"""
                if not isinstance(g, N.Iv):
                    return None
                for s in (1, -1):
                    q = PL.nrm(g.p - E.scale(s))
                    c = q.const()
                    if c is None:
                        continue
                    t = s * sgn
                    if g.kind == "eq":
                        return const(0) if c == 0 else None
                    if t == 1:
                        return const(1) if c >= -1 else None
                    return const(0) if c <= 0 else None
                return None
            ok = True
            for sgn in (1, -1):
                if PL.ge0(E.scale(-sgn)):
                    continue
                x = N.subfac(d, lambda g: val(g, sgn))
                if x.key == d.key or not prove_zero(N.renorm(x), depth + 1):
                    ok = False
                    break
            if ok:
                x = N.renorm(d.sub({u: rest}))
                if x.key != d.key and prove_zero(x, depth + 1):
                    return True
            return False
    return False


def _tri_split(d, f, depth):
    """decide by cases f.p>=0 / f.p<0 : replace the bracket (and its complement) by its value"""
    k = f.key
    p = f.p
    comp = N.mk_iv("ge", -p - 1)
    ck = None
    m = N.mono(comp)
    if m and len(m[1].facs) == 1:
        ck = m[1].facs[0][0].key
    eqk = None
    res = True
    for val in (1, 0):
        x = N.subfac(d, lambda g: const(val) if g.key == k else (const(1 - val) if ck and g.key == ck else None))
        old = PL.CTX
        import copy
        c2 = PL.Ctx()
        c2.dimsub, c2.ge, c2.pos = dict(old.dimsub), list(old.ge), set(old.pos)
        c2.ge.append(p if val else -p - 1)
        c2.bump()
        PL.set_ctx(c2)
        try:
            x = N.renorm(x)
            ok = prove_zero(x, depth + 1)
        finally:
            PL.set_ctx(old)
        if not ok:
            res = False
            break
    return res


RT = Runtime()
