"""Symbolic arrays: storage cells, strided views with write-through, frames."""
from fractions import Fraction
from . import poly as PL
from . import nf as N
from .nf import NF, toNF, const, fromP
from .poly import P, Dim, IV, IF, toP, fresh, same, ge0
from . import rt
from .rt import RT, Sc, SB, Unsupported, RANK, join, kind_of, isnum, nfof, sint, as_poly, mk, isinf

F = Fraction


class Meta(type):
    def __instancecheck__(cls, x):
        if cls is generic:
            return isinstance(x, Sc)
        if issubclass(cls, generic):
            return isinstance(x, Sc) and x.np and RANK[x.kind] and issubclass(KCLS[x.kind], cls)
        return type.__instancecheck__(cls, x)

    def __repr__(cls):
        return "<np." + cls.__name__ + ">"

    def __str__(cls):
        return cls.__name__


class generic(metaclass=Meta):
    kind = None

    def __new__(cls, x=0, *a, **k):
        if cls.kind is None:
            raise TypeError("cannot create " + cls.__name__)
        if isinstance(x, Arr):
            return x.astype(cls)
        if isinstance(x, (list, tuple)):
            return asarr(x).astype(cls)
        return mk(nfof(x), cls.kind) if not isinf(x) else x


class number(generic):
    pass


class integer(number):
    pass


class signedinteger(integer):
    pass


class inexact(number):
    pass


class floating(inexact):
    pass


class complexfloating(inexact):
    pass


class float64(floating):
    kind = "float"


class float32(floating):
    kind = "float"


class complex128(complexfloating):
    kind = "complex"


class complex64(complexfloating):
    kind = "complex"


class int64(signedinteger):
    kind = "int"


class int32(signedinteger):
    kind = "int"


class bool_(generic):
    kind = "bool"


class object_(generic):
    kind = "object"


KCLS = {"float": float64, "complex": complex128, "int": int64, "bool": bool_, "object": object_}
KCHR = {"float": "f", "complex": "c", "int": "i", "bool": "b", "object": "O"}


class DT:
    """dtype object"""

    def __init__(self, kind, name=None):
        self.k_ = kind
        self.name = name or {"float": "float64", "complex": "complex128", "int": "int64", "bool": "bool", "object": "object"}[kind]

    @property
    def kind(self):
        # numpy's one letter code; internal name is .k_
        return _K(KCHR[self.k_], self.k_)

    @property
    def type(self):
        return KCLS[self.k_]

    @property
    def itemsize(self):
        return {"complex": 16, "bool": 1}.get(self.k_, 8)

    @property
    def char(self):
        return {"float": "d", "complex": "D", "int": "l", "bool": "?", "object": "O"}[self.k_]

    @staticmethod
    def of(d, default="float"):
        if d is None:
            return DT(default)
        if isinstance(d, DT):
            return d
        if isinstance(d, type) and issubclass(d, generic):
            if d.kind is None:
                raise Unsupported("abstract dtype")
            return DT(d.kind, d.__name__.rstrip("_") if d.__name__ in ("float32", "complex64", "int32") else None)
        if isinstance(d, str):
            for k, names in {"float": ("float", "float64", "f8", "d", "<f8"), "complex": ("complex", "complex128", "c16", "D"), "int": ("int", "int64", "i8", "l"), "bool": ("bool", "?"), "object": ("object", "O")}.items():
                if d in names:
                    return DT(k)
            if d in ("float32", "complex64", "int32", "f4", "c8", "i4"):
                return DT({"f": "float", "c": "complex", "i": "int"}[d[0]], {"f4": "float32", "c8": "complex64", "i4": "int32"}.get(d, d))
            raise TypeError("data type %r not understood" % d)
        nm = getattr(d, "rsv_name", None) or getattr(d, "__name__", None)
        if nm in ("float", "complex", "int", "bool", "object"):
            return DT(nm)
        raise Unsupported("dtype %r" % (d,))

    def __eq__(self, o):
        try:
            o = DT.of(o)
        except BaseException:
            return False
        return self.k_ == o.k_ and self.name == o.name

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "dtype('%s')" % self.name

    def __str__(self):
        return self.name


class _K(str):
    """numpy one-letter kind that also remembers the internal name"""

    def __new__(cls, s, k):
        o = str.__new__(cls, s)
        o.k = k
        return o


def dk(d, default="float"):
    d = DT.of(d, default)
    double(d)
    return d.k_


def double(d):
    # entries are exact reals: a store which rounds to single precision is outside every contract
    if d.name in ("float32", "complex64"):
        raise Unsupported("single precision storage")


_cell_n = [0]


class Cell:
    __slots__ = ("shape", "ix", "body", "kind", "frozen", "dt", "id", "ro", "src")

    def __init__(self, shape, ix, body, kind, frozen=None, dt=None):
        self.shape, self.ix, self.body, self.kind, self.frozen = tuple(shape), tuple(ix), body, kind, frozen
        self.dt = dt
        self.ro = False
        self.src = None       # (cell, its contents) when this is a snapshot standing for a numpy view of that cell
        _cell_n[0] += 1
        self.id = _cell_n[0]

    def at(self, idx):
        if self.src is not None and self.src[0].body is not self.src[1] and self.src[0].body.key != self.src[1].key:
            raise Unsupported("reading a reshaped / real-part view after its base array changed")
        return self.body.sub({v: p for v, p in zip(self.ix, idx)})

    def write(self, body):
        if self.frozen:
            RT.oblige("frame: argument '%s' is not modified" % self.frozen, False, "a write reaches the caller's array '%s'" % self.frozen, "frame")
        for L in RT.loopstack:
            L.note_write(self)
        self.body = body


class Arr:
    """array = view on a cell"""
    __array_priority__ = 1000

    def __init__(self, cell, shape, ix, mp, ro=False):
        """mp: base index polynomials over the view formals ix"""
        self.cell, self.vshape, self.ix, self.mp = cell, tuple(shape), tuple(ix), tuple(mp)
        self.alias_bad = ro        # writing through this view is outside the subset

    # ------------------------------------------------ basic attributes
    @property
    def shape(self):
        return tuple(sint(s) for s in self.vshape)

    @shape.setter
    def shape(self, s):
        raise Unsupported("shape assignment")

    @property
    def ndim(self):
        return len(self.vshape)

    @property
    def size(self):
        r = toP(1)
        for s in self.vshape:
            r = r * s
        return sint(r)

    @property
    def dtype(self):
        return DT(self.cell.kind, self.cell.dt)

    @property
    def kind(self):
        return self.cell.kind

    @property
    def nbytes(self):
        raise Unsupported("nbytes")

    @property
    def flags(self):
        raise Unsupported("flags")

    def at(self, idx):
        """entry as NF; idx: index polynomials"""
        mp = {v: toP(p) for v, p in zip(self.ix, idx)}
        return self.cell.at([m.sub(mp) for m in self.mp])

    def body(self):
        return self.at([toP(v) for v in self.ix])

    def formals(self):
        return [fresh(s, "i") for s in self.vshape]

    def __len__(self):
        if not self.vshape:
            raise TypeError("len() of unsized object")
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic array by native code")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.item())
        if same(_prod(self.vshape), 1):
            return bool(scalar(self.at([toP(0)] * self.ndim), self.kind))
        if all(PL.nrm(s).const() is not None for s in self.vshape) or True:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __iter__(self):
        if not self.vshape:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic axis by native code")
        return iter([self[i] for i in range(n)])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return "Arr(%s,%s)" % (",".join(s.key for s in self.vshape), N.show(self.body(), 200))

    __str__ = __repr__

    def __format__(self, s):
        return "<array>"

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    # ------------------------------------------------ views
    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            axes = tuple(reversed(range(n)))
        axes = [int(a) % n for a in axes]
        if sorted(axes) != list(range(n)):
            raise ValueError("axes don't match array")
        return Arr(self.cell, [self.vshape[a] for a in axes], [self.ix[a] for a in axes], self.mp, self.alias_bad)

    def swapaxes(self, a, b):
        l = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        l[a], l[b] = l[b], l[a]
        return self.transpose(l)

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("view with dtype")
        return Arr(self.cell, self.vshape, self.ix, self.mp, self.alias_bad)

    @property
    def flat(self):
        raise Unsupported("flat")

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if self.ndim and not same(_prod(self.vshape), 1):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return scalar(self.at([toP(0)] * self.ndim), self.kind)

    # ------------------------------------------------ copies
    def copy(self, order="C"):
        f = self.formals()
        return new(self.vshape, f, self.at([toP(v) for v in f]), self.kind, self.cell.dt)

    def astype(self, dtype, copy=True, **k):
        d = DT.of(dtype)
        if not copy and d == self.dtype:
            return self
        if d != self.dtype:
            double(d)
        f = self.formals()
        return new(self.vshape, f, castnf(self.at([toP(v) for v in f]), self.kind, d.k_), d.k_, d.name)

    @property
    def real(self):
        if self.kind != "complex":
            return self
        f = self.formals()
        return new(self.vshape, f, N.re(self.at([toP(v) for v in f])), "float", ro=True, src=self)

    @real.setter
    def real(self, v):
        cur = self.copy()
        self[...] = asarr(v) + 1j * cur.imag

    @property
    def imag(self):
        f = self.formals()
        if self.kind != "complex":
            return new(self.vshape, f, const(0), self.kind, ro=True)
        return new(self.vshape, f, N.im(self.at([toP(v) for v in f])), "float", ro=True, src=self)

    @imag.setter
    def imag(self, v):
        cur = self.copy()
        self[...] = cur.real + 1j * asarr(v)

    def conj(self):
        if self.kind != "complex":
            return self
        f = self.formals()
        return new(self.vshape, f, N.conj(self.at([toP(v) for v in f])), self.kind, self.cell.dt)
    conjugate = conj

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == 1 and shape[0] is None:
            raise TypeError("reshape(None)")
        return reshape(self, shape, order)

    def ravel(self, order="C"):
        return reshape(self, (-1,), order)

    def flatten(self, order="C"):
        r = reshape(self, (-1,), order)
        return r.copy()

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        n = self.shape
        if any(not isinstance(s, int) for s in n):
            raise Unsupported("tolist of a symbolic array")
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    # ------------------------------------------------ methods implemented in npshim
    def _np(self):
        from . import npshim
        return npshim

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._np().sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return self._np().prod(self, axis=axis, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._np().mean(self, axis=axis, keepdims=keepdims)

    def trace(self, offset=0, axis1=0, axis2=1):
        return self._np().trace(self, offset, axis1, axis2)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return self._np().diagonal(self, offset, axis1, axis2)

    def dot(self, o):
        return self._np().dot(self, o)

    def take(self, ind, axis=None, **k):
        return self._np().take(self, ind, axis=axis, **k)

    def all(self, axis=None, **k):
        return self._np().all(self, axis=axis, **k)

    def any(self, axis=None, **k):
        return self._np().any(self, axis=axis, **k)

    def max(self, axis=None, **k):
        return self._np().amax(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return self._np().amin(self, axis=axis, **k)

    def clip(self, a=None, b=None, **k):
        return self._np().clip(self, a, b)

    def repeat(self, n, axis=None):
        return self._np().repeat(self, n, axis)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("ndarray.%s" % name)

    # ------------------------------------------------ operators
    def __add__(self, o):
        return ew(lambda a, b: a + b, self, o)

    def __radd__(self, o):
        return ew(lambda a, b: a + b, o, self)

    def __sub__(self, o):
        return ew(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return ew(lambda a, b: a - b, o, self)

    def __mul__(self, o):
        return ew(N.mul, self, o)

    def __rmul__(self, o):
        return ew(N.mul, o, self)

    def __truediv__(self, o):
        return ew(rt.divnf, self, o, kf=lambda k: join(k, "float"))

    def __rtruediv__(self, o):
        return ew(rt.divnf, o, self, kf=lambda k: join(k, "float"))

    def __floordiv__(self, o):
        return ew(_floordiv_nf, self, o)

    def __rfloordiv__(self, o):
        return ew(_floordiv_nf, o, self)

    def __mod__(self, o):
        return ew(_mod_nf, self, o)

    def __rmod__(self, o):
        return ew(_mod_nf, o, self)

    def __pow__(self, o):
        return ewpow(self, o)

    def __rpow__(self, o):
        return ewpow(o, self)

    def __neg__(self):
        return ew1(lambda a: -a, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ew1(lambda a: N.mk_fn("abs", [a]), self, lambda k: "float" if k == "complex" else k)

    def __matmul__(self, o):
        return self._np().matmul(self, o)

    def __rmatmul__(self, o):
        return self._np().matmul(o, self)

    def _iop(self, o, f, kf=None):
        r = ew(f, self, o, kf=kf)
        if len(r.vshape) != len(self.vshape) or any(not same(a, b) for a, b in zip(r.vshape, self.vshape)):
            raise ValueError("non-broadcastable output operand")
        if RANK[r.kind] > RANK[self.kind]:
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (r.kind, self.kind))
        setitem(self, Ellipsis, r)
        return self

    def __iadd__(self, o):
        return self._iop(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._iop(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._iop(o, N.mul)

    def __itruediv__(self, o):
        return self._iop(o, rt.divnf, lambda k: join(k, "float"))

    def __ipow__(self, o):
        r = ewpow(self, o)
        setitem(self, Ellipsis, r)
        return self

    def __imatmul__(self, o):
        setitem(self, Ellipsis, self @ o)
        return self

    def __lt__(self, o):
        return ewcmp(o, self, ">")

    def __gt__(self, o):
        return ewcmp(self, o, ">")

    def __le__(self, o):
        return ewcmp(o, self, ">=")

    def __ge__(self, o):
        return ewcmp(self, o, ">=")

    def __eq__(self, o):
        if o is None:
            return ew1(lambda a: const(0), self, lambda k: "bool")
        return ewcmp(self, o, "==")

    def __ne__(self, o):
        if o is None:
            return ew1(lambda a: const(1), self, lambda k: "bool")
        r = ewcmp(self, o, "==")
        return ew1(lambda a: const(1) - a, r, lambda k: "bool")

    def __and__(self, o):
        if self.kind == "bool":
            return ew(N.mul, self, o)
        raise Unsupported("bitwise and")

    def __or__(self, o):
        if self.kind == "bool":
            return ew(lambda a, b: a + b - N.mul(a, b), self, o)
        raise Unsupported("bitwise or")

    def __invert__(self):
        if self.kind == "bool":
            return ew1(lambda a: const(1) - a, self)
        raise Unsupported("bitwise not")


ndarray = Arr


def _floordiv_nf(a, b):
    r = rt.floordiv(Sc(a, "int"), Sc(b, "int"))
    return nfof(r)


def _mod_nf(a, b):
    r = rt.modulo(Sc(a, "int"), Sc(b, "int"))
    return nfof(r)


def _prod(ps):
    r = toP(1)
    for s in ps:
        r = r * s
    return r


# ------------------------------------------------------------------ construction
def new(shape, ix, body, kind, dt=None, ro=False, src=None):
    shape = [toP(s) for s in shape]
    c = Cell(shape, ix, body, kind, dt=dt if dt not in ("float64", "complex128", "int64", "bool", "object") else None)
    if src is not None:
        c.src = src.cell.src or (src.cell, src.cell.body)
    return Arr(c, shape, ix, [toP(v) for v in ix], ro)


def build(shape, fn, kind, dt=None):
    """array from an entry function of index polynomials"""
    shape = [toP(s) for s in shape]
    ix = [fresh(s, "i") for s in shape]
    return new(shape, ix, fn(*[toP(v) for v in ix]), kind, dt)


def scalar(nf, kind):
    if kind == "bool":
        c = nf.const()
        if c is not None:
            return bool(c[0])
        return bool_sb(nf)
    return Sc(nf, kind, True)


def bool_sb(nf):
    """0/1-valued expression as a symbolic boolean"""
    m = N.mono(nf)
    if m and m[0] == (1, 0) and not m[1].bounds and len(m[1].facs) == 1:
        f = m[1].facs[0][0]
        if isinstance(f, N.Fn) and f.name in ("[>]", "[>=]", "[==]"):
            return rt.cmp_nf(f.args[0], f.name[1:-1])
        if isinstance(f, N.At) and f.name.startswith("[") and f.key in RT.names:
            return RT.names[f.key]
    return rt.cmp_nf(nf, "==") if False else rt.sb_not(_asb(rt.cmp_nf(nf, "==")))


def _asb(b):
    return b


def shape_of(s):
    """normalise a shape argument to a list of P"""
    if isinstance(s, Arr):
        s = list(s)
    if not isinstance(s, (tuple, list)):
        s = (s,)
    out = []
    for x in s:
        p = as_poly(x)
        if p is None or not rt.int_valued(p):
            raise Unsupported("shape %r" % (x,))
        if isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(x, Sc) and x.kind == "float":
            raise TypeError("'float' object cannot be interpreted as an integer")
        out.append(p)
    return out


def asarr(x, dtype=None):
    """python / scalar / nested sequence -> Arr"""
    if isinstance(x, Arr):
        if dtype is not None and DT.of(dtype) != x.dtype:
            return x.astype(dtype)
        return x
    if isinstance(x, (Sc, SB)) or isnum(x) or isinstance(x, bool):
        k = kind_of(x)
        if isinf(x):
            raise Unsupported("array of inf")
        r = new([], [], nfof(x), k)
    elif isinstance(x, SymSeq):
        r = x.stack()
    elif isinstance(x, (list, tuple)):
        if not x:
            r = new([toP(0)], [fresh(toP(0))], const(0), "float")
        else:
            from . import npshim
            parts = [asarr(y) for y in x]
            if any(p.ndim != parts[0].ndim for p in parts):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            r = npshim._stack(parts, 0)
    elif x is None:
        raise Unsupported("array of None")
    else:
        try:
            return asarr(list(x))
        except TypeError:
            raise Unsupported("asarray(%r)" % type(x))
    if dtype is not None:
        r = r.astype(dtype)
    return r


class SymSeq:
    """python sequence of symbolic length: element function of an index variable"""

    def __init__(self, n, fn, tup=False):
        self.n, self.fn, self.tup = toP(n), fn, tup

    def elem(self, i):
        return self.fn(toP(i))

    def stack(self):
        i = fresh(self.n, "i")
        e = asarr(self.elem(toP(i)))
        f = e.formals()
        return new([self.n] + list(e.vshape), [i] + f, e.at([toP(v) for v in f]), e.kind)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence by native code")

    def __len__(self):
        raise Unsupported("len of a symbolic sequence by native code")

    def __getitem__(self, k):
        if isinstance(k, slice):
            st = as_poly(0 if k.start is None else k.start)
            en = self.n if k.stop is None else as_poly(k.stop)
            if k.step not in (None, 1) or st is None or en is None:
                raise Unsupported("slice of a symbolic sequence")
            if not ge0(st):
                st = st + self.n
            if not ge0(en):
                en = en + self.n
            if not (ge0(st) and ge0(self.n - en)):
                raise Unsupported("slice bounds")
            fn = self.fn
            return SymSeq(en - st, lambda i: fn(i + st), self.tup)
        p = as_poly(k)
        if p is None:
            raise Unsupported("index")
        if ge0(-p - 1):
            p = p + self.n
        if not (ge0(p) and PL.lt(p, self.n)):
            raise Unsupported("symbolic sequence index not provably in range")
        return self.elem(p)


# ------------------------------------------------------------------ element-wise
def castnf(n, k1, k2):
    if k1 == "complex" and k2 in ("float", "int"):
        n = N.re(n)
    if k2 == "int" and k1 in ("float", "complex"):
        p = N.topoly(n)
        c = n.const()
        if c is not None:
            return const(int(c[0]))
        if p is not None and rt.int_valued(p):
            return n
        return N.mk_fn("trunc", [n])
    if k2 == "bool" and k1 != "bool":
        c = n.const()
        if c is not None:
            return const(0 if c == (0, 0) else 1)
        return const(1) - N.mk_fn("[==]", [n])
    return n


def bshape(arrs):
    n = max((a.ndim for a in arrs), default=0)
    out = []
    for d in range(n):
        cur = None
        for a in arrs:
            k = d - (n - a.ndim)
            if k < 0:
                continue
            s = PL.nrm(a.vshape[k])
            if s.const() == 1:
                if cur is None:
                    cur = s
                continue
            if cur is None or PL.nrm(cur).const() == 1:
                cur = s
            elif not same(cur, s):
                raise ValueError("operands could not be broadcast together with shapes " + " ".join("(" + ",".join(x.key for x in a.vshape) + ")" for a in arrs))
        out.append(cur if cur is not None else toP(1))
    return out


def bat(a, idx):
    """entry of a at broadcast index idx"""
    k = len(idx) - a.ndim
    return a.at([toP(0) if PL.nrm(s).const() == 1 else p for s, p in zip(a.vshape, idx[k:])])


def _operand(x):
    if isinstance(x, (Arr, SymSeq, list, tuple, Sc, SB)) or isnum(x) or isinstance(x, bool):
        return asarr(x)
    return None


def ew(f, *xs, kf=None):
    arrs = []
    for x in xs:
        a = _operand(x)
        if a is None:
            if hasattr(x, "__radd__") or x is None or isinstance(x, (str, dict)):
                if x is None:
                    raise TypeError("unsupported operand type(s): 'NoneType' and 'ndarray'")
            raise Unsupported("operand %r" % type(x))
        arrs.append(a)
    sh = bshape(arrs)
    ix = [fresh(s, "i") for s in sh]
    idx = [toP(v) for v in ix]
    body = f(*[bat(a, idx) for a in arrs])
    k = join(*[a.kind for a in arrs])
    # python scalars do not change float/complex ranks differently here (value-based casting is irrelevant at f8/c16)
    k = kf(k) if kf else ("int" if k == "bool" else k)
    dts = {a.cell.dt for a, x in zip(arrs, xs) if isinstance(x, Arr)}
    dt = dts.pop() if len(dts) == 1 and k != "bool" and kf is None else None
    if not sh:
        return scalar(body, k) if not any(isinstance(x, Arr) and False for x in xs) else new(sh, ix, body, k)
    return new(sh, ix, body, k, dt if k in ("float", "complex", "int") and dt and dt.startswith(k[0]) else None)


def ew1(f, x, kf=None):
    a = _operand(x)
    if a is None:
        raise Unsupported("operand %r" % type(x))
    ix = a.formals()
    body = f(a.at([toP(v) for v in ix]))
    k = kf(a.kind) if kf else a.kind
    if not a.vshape:
        return scalar(body, k)
    return new(a.vshape, ix, body, k)


def ewpow(a, b):
    def f(x, y):
        c = y.const()
        if c is not None and c[1] != 0:
            raise Unsupported("complex exponent")
        if c is None and not N.isreal(y):
            raise Unsupported("complex exponent")
        if c == (0, 0):
            return const(1)
        if x.iszero():
            return x
        return N.npow(x, N.enorm(y))
    aa, bb = _operand(a), _operand(b)
    if aa is None or bb is None:
        raise Unsupported("power operand")
    bk = kind_of(b) if not isinstance(b, Arr) else b.kind
    if aa.kind == "int" and bk == "int":
        c = bb.body().const() if bb.ndim == 0 else None
        if c is not None and c[0] < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
    return ew(f, a, b)


def ewcmp(a, b, op):
    aa, bb = _operand(a), _operand(b)
    if aa is None or bb is None:
        if op == "==":
            return False
        raise Unsupported("comparison operand")
    if isinf(a) or isinf(b):
        raise Unsupported("array comparison with inf")

    def f(x, y):
        r = rt.cmp_nf(x - y, op)
        if isinstance(r, bool):
            return const(int(r))
        return cmp_fn(r)
    return ew(f, aa, bb, kf=lambda k: "bool")


def cmp_fn(sb):
    op, d = sb.args
    return N.nfac(N.Fn("[%s]" % op, [d]))


# ------------------------------------------------------------------ indexing
def _pos_index(p, n):
    """normalise a possibly negative index"""
    if ge0(p):
        if not PL.lt(p, n):
            b = rt.cmp_nf(fromP(n - p - 1), ">=")
            if not bool(b):
                raise IndexError("index out of bounds")
        return p
    if ge0(-p - 1):
        if not ge0(p + n):
            b = rt.cmp_nf(fromP(n + p), ">=")
            if not bool(b):
                raise IndexError("index out of bounds")
        return p + n
    raise Unsupported("index of unknown sign " + p.key)


def _clip(p, n):
    """slice bound clipping: value of min(max(p (+n if negative), 0), n)"""
    if ge0(-p - 1):
        p = p + n
        if not ge0(p):
            if ge0(-p):
                return toP(0)
            if bool(rt.cmp_nf(fromP(p), ">=")):
                return p
            return toP(0)
    elif not ge0(p):
        b = bool(rt.cmp_nf(fromP(p), ">="))
        if not b:
            return _clip(p, n)
    if ge0(n - p):
        return p
    if ge0(p - n):
        return n
    if bool(rt.cmp_nf(fromP(n - p), ">=")):
        return p
    return n


def _slice(s, n):
    """(start, length, step)"""
    st = s.step
    if st is None:
        st = 1
    stp = as_poly(st)
    if stp is None or stp.const() is None:
        raise Unsupported("symbolic slice step")
    st = int(stp.const())
    if st == 1:
        a = toP(0) if s.start is None else _sp(s.start)
        b = n if s.stop is None else _sp(s.stop)
        if s.start is not None:
            a = _clip(a, n)
        if s.stop is not None:
            b = _clip(b, n)
        if ge0(b - a):
            return a, b - a, 1
        if ge0(a - b):
            return a, toP(0), 1
        if bool(rt.cmp_nf(fromP(b - a), ">=")):
            return a, b - a, 1
        return a, toP(0), 1
    if st == -1 and s.start is None and s.stop is None:
        return n - 1, n, -1
    if st > 1 and s.stop is None and s.start is not None or st > 1 and s.stop is None:
        a = toP(0) if s.start is None else _clip(_sp(s.start), n)
        q, r = PL.idivmod(n - a + (st - 1), toP(st))
        return a, q, st
    raise Unsupported("slice step")


def _sp(x):
    if isinstance(x, float) or (isinstance(x, Sc) and x.kind == "float"):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    p = as_poly(x)
    if p is None or not rt.int_valued(p):
        raise Unsupported("slice bound %r" % (x,))
    return p


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nel = sum(1 for k in key if k is Ellipsis)
    if nel > 1:
        raise IndexError("an index can only have a single ellipsis ('...')")
    cnt = sum(1 for k in key if k is not None and k is not Ellipsis)
    for k in key:
        if isinstance(k, Arr) and k.kind == "bool":
            raise Unsupported("boolean mask indexing")
    if cnt > a.ndim:
        raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (a.ndim, cnt))
    if nel:
        p = key.index(Ellipsis) if not any(isinstance(k, Arr) for k in key) else [n for n, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [slice(None)] * (a.ndim - cnt)
    else:
        key += [slice(None)] * (a.ndim - cnt)
    return key


def resolve(a, key):
    """basic indexing: list of per-axis selectors and output axes; None when advanced indexing is needed"""
    key = expand_key(a, key)
    adv = any(isinstance(k, (Arr, list, SymSeq)) and not (isinstance(k, Arr) and k.ndim == 0) for k in key)
    if any(isinstance(k, bool) for k in key):
        raise Unsupported("boolean index")
    return key, adv


def getitem(a, key):
    if isinstance(key, Arr) and key.kind == "bool":
        raise Unsupported("boolean mask indexing")
    key, adv = resolve(a, key)
    if adv:
        return adv_get(a, key)
    ax = 0
    shape, ix = [], []
    sub = {}
    for k in key:
        if k is None:
            v = fresh(toP(1), "i")
            shape.append(toP(1))
            ix.append(v)
            continue
        n = a.vshape[ax]
        if isinstance(k, slice):
            st, ln, sp = _slice(k, n)
            v = fresh(ln, "i")
            shape.append(ln)
            ix.append(v)
            sub[a.ix[ax]] = st + (toP(v) if sp == 1 else toP(v).scale(sp))
        else:
            if isinstance(k, Arr):
                k = k.item()
            if isinstance(k, (float, str)) or (isinstance(k, Sc) and k.kind not in ("int", "bool")):
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            p = as_poly(k)
            if p is None:
                raise Unsupported("index %r" % (k,))
            sub[a.ix[ax]] = _pos_index(p, n)
        ax += 1
    mp = [m.sub(sub) for m in a.mp]
    r = Arr(a.cell, shape, ix, mp, a.alias_bad)
    if not shape and not any(isinstance(k, slice) or k is None for k in key) and True:
        return scalar(r.at([]), a.kind)
    return r


def _ixarr(k):
    if isinstance(k, (list, SymSeq)):
        k = asarr(k)
    if isinstance(k, Arr):
        if k.kind not in ("int",):
            raise Unsupported("index array of kind " + k.kind)
        return k
    return asarr(k)


def adv_entry(k, idx, n):
    p = N.topoly(bat(k, idx))
    if p is None:
        raise Unsupported("index array entries are not index polynomials")
    if ge0(-p - 1):
        p = p + n
    if not (ge0(p) and PL.lt(p, n)):
        raise Unsupported("index array not provably in range: %s < %s" % (p, n))
    return p


def adv_get(a, key):
    advs = [(pos, _ixarr(k)) for pos, k in enumerate(key) if k is not None and not isinstance(k, slice)]
    poss = [p for p, _ in advs]
    contiguous = poss == list(range(poss[0], poss[-1] + 1))
    bsh = bshape([k for _, k in advs])
    shape, sel = [], []
    ax = 0
    front = not contiguous
    adv_ix = [fresh(s, "i") for s in bsh]
    out_ix, out_shape = [], []
    if front:
        out_ix += adv_ix
        out_shape += bsh
    idxmap = []
    ins = False
    for pos, k in enumerate(key):
        if k is None:
            v = fresh(toP(1), "i")
            out_ix.append(v)
            out_shape.append(toP(1))
            continue
        n = a.vshape[ax]
        if isinstance(k, slice):
            st, ln, sp = _slice(k, n)
            v = fresh(ln, "i")
            out_ix.append(v)
            out_shape.append(ln)
            idxmap.append(st + toP(v).scale(sp))
        else:
            if not front and not ins:
                out_ix += adv_ix
                out_shape += bsh
                ins = True
            idxmap.append(adv_entry(_ixarr(k), [toP(v) for v in adv_ix], n))
        ax += 1
    return new(out_shape, out_ix, a.at(idxmap), a.kind, a.cell.dt)


def view(a, shape, ix, idx, ro=None):
    """view of a: entry ix of the view is entry idx (polynomials over ix) of a"""
    mp = {v: toP(p) for v, p in zip(a.ix, idx)}
    return Arr(a.cell, shape, ix, [m.sub(mp) for m in a.mp], ro or a.alias_bad)


def setitem(a, key, val):
    if a.alias_bad == "ro":
        raise ValueError("assignment destination is read-only")
    if a.alias_bad:
        b = a.cell.src[0] if a.cell.src is not None else a.cell
        if b.frozen:
            b.write(b.body)
        raise Unsupported("write through a reshaped / real-part view")
    if isinstance(key, Arr) and key.kind == "bool":
        # masked assignment: a[mask] = scalar
        v = _operand(val)
        if v is None or v.ndim:
            raise Unsupported("masked assignment of an array")
        m = key
        if m.ndim != a.ndim:
            raise Unsupported("mask of lower rank")
        f = a.formals()
        idx = [toP(x) for x in f]
        c = m.at(idx)
        body = N.mul(c, castnf(v.at([]), v.kind, a.kind)) + N.mul(const(1) - c, a.at(idx))
        return setitem(a, Ellipsis, new(a.vshape, f, body, a.kind))
    v = _operand(val)
    if v is None:
        raise Unsupported("assignment of %r" % type(val))
    key, adv = resolve(a, key)
    if v.kind == "complex" and a.kind != "complex" and a.kind != "object":
        # numpy: ComplexWarning for arrays (imaginary part discarded), TypeError for a scalar
        if not isinstance(val, Arr):
            raise TypeError("can't convert complex to float")
        RT.events.append(("ComplexWarning",))
    if adv:
        return adv_set(a, key, v)
    # view of the target
    ax = 0
    sub = {}
    shape, ix = [], []
    back = []            # (view index var, axis) for value lookup
    conds = []
    for k in key:
        if k is None:
            shape.append(toP(1))
            ix.append(None)
            continue
        n = a.vshape[ax]
        if isinstance(k, slice):
            st, ln, sp = _slice(k, n)
            shape.append(ln)
            av = toP(a.ix[ax])
            if sp == 1:
                ix.append(av - st)
                conds.append(N.mk_iv("ge", av - st))
                conds.append(N.mk_iv("ge", st + ln - 1 - av))
            elif sp == -1:
                ix.append(st - av)
            else:
                raise Unsupported("strided assignment")
        else:
            if isinstance(k, Arr):
                k = k.item()
            p = as_poly(k)
            if p is None:
                raise Unsupported("index %r" % (k,))
            p = _pos_index(p, n)
            conds.append(N.delta(toP(a.ix[ax]), p))
        ax += 1
    _write(a, shape, ix, conds, v)


def _write(a, shape, ix, conds, v):
    # broadcast v to shape
    if v.ndim > len(shape):
        ex = v.ndim - len(shape)
        for s in v.vshape[:ex]:
            if PL.nrm(s).const() != 1:
                raise ValueError("could not broadcast input array into shape")
    k = v.ndim - len(shape)
    idx = []
    for d in range(v.ndim):
        s = PL.nrm(v.vshape[d])
        if d < k:
            idx.append(toP(0))
            continue
        tgt = shape[d - k]
        if s.const() == 1:
            idx.append(toP(0))
        elif same(s, tgt):
            idx.append(ix[d - k] if ix[d - k] is not None else toP(0))
        else:
            raise ValueError("could not broadcast input array from shape (%s) into shape (%s)" % (",".join(x.key for x in v.vshape), ",".join(x.key for x in shape)))
    val = castnf(v.at(idx), v.kind, a.kind)
    # now express over the base cell indices: invert the view map
    inv = {}
    base = a.cell.ix
    for bi, m in zip(base, a.mp):
        vs = [w for w in m.top_vars() if w in a.ix]
        if not vs:
            conds.append(N.delta(toP(bi), m))
            continue
        if len(vs) > 1:
            raise Unsupported("write through a diagonal view")
        w = vs[0]
        ab = m.lin(w)
        if ab is None or ab[0].const() not in (1, -1):
            raise Unsupported("write through a strided view")
        sgn = ab[0].const()
        e = (toP(bi) - ab[1]).scale(sgn)
        if w in inv:
            conds.append(N.delta(e, inv[w]))
            continue
        inv[w] = e
        conds.append(N.mk_iv("ge", e))
        conds.append(N.mk_iv("ge", w.size - 1 - e))
    region = const(1)
    for c in conds:
        region = N.mul(region, c.sub(inv))
    val = val.sub(inv)
    if region.const() == (1, 0):
        body = val
    else:
        body = a.cell.body + N.mul(region, val - a.cell.body)
    a.cell.write(body)


def adv_set(a, key, v):
    """scatter through index arrays with a known inverse: triangular / diagonal / arange enumerations"""
    advs = [(n, _ixarr(k)) for n, k in enumerate(key) if k is not None and not isinstance(k, slice)]
    if len(advs) != len(key) or any(k.ndim != 1 for _, k in advs):
        raise Unsupported("scatter assignment")
    bsh = bshape([k for _, k in advs])
    t = fresh(bsh[0], "i")
    ps = [adv_entry(k, [toP(t)], a.vshape[n]) for n, k in advs]
    # recognise (triu_r(n,t), triu_c(n,t)), (t,t), t
    tgt = [toP(x) for x in a.ix]
    inv = None
    cond = const(1)
    if len(ps) == 2:
        r, c = ps
        for pre in ("triu", "tril"):
            rf = _single_if(r, pre + "_r")
            cf = _single_if(c, pre + "_c")
            if rf is not None and cf is not None and rf.args[1].key == toP(t).key == cf.args[1].key:
                n = rf.args[0]
                if pre == "triu":
                    cond = N.mk_iv("ge", tgt[1] - tgt[0])
                else:
                    cond = N.mk_iv("ge", tgt[0] - tgt[1])
                inv = PL.mkif(pre + "_i", (n, tgt[0], tgt[1]))
            # swapped
            rf = _single_if(r, pre + "_c")
            cf = _single_if(c, pre + "_r")
            if inv is None and rf is not None and cf is not None and rf.args[1].key == toP(t).key == cf.args[1].key:
                n = rf.args[0]
                cond = N.mk_iv("ge", (tgt[0] - tgt[1]) if pre == "triu" else (tgt[1] - tgt[0]))
                inv = PL.mkif(pre + "_i", (n, tgt[1], tgt[0]))
        if inv is None and r.key == c.key == toP(t).key:
            inv = tgt[0]
            cond = N.delta(tgt[0], tgt[1])
            cond = N.mul(cond, N.mk_iv("ge", t.size - 1 - tgt[0]))
    elif len(ps) == 1 and ps[0].key == toP(t).key:
        inv = tgt[0]
        cond = N.mk_iv("ge", t.size - 1 - tgt[0])
    if inv is None:
        raise Unsupported("scatter assignment through these index arrays")
    if v.ndim == 0:
        val = v.at([])
    else:
        if v.ndim != 1 or not (same(v.vshape[0], bsh[0]) or PL.nrm(v.vshape[0]).const() == 1):
            raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
        val = v.at([inv if PL.nrm(v.vshape[0]).const() != 1 else toP(0)])
    val = castnf(val, v.kind, a.kind)
    f = a.formals()
    mp = {o: toP(w) for o, w in zip(a.ix, f)}
    old = a.at([toP(w) for w in f])
    body = old + N.mul(cond.sub(mp), val.sub(mp) - old)
    setitem(a, Ellipsis, new(a.vshape, f, body, a.kind))


def _single_if(p, name):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and isinstance(m[0], IF) and m[0].name == name:
            return m[0]
    return None


def reshape(a, shape, order="C"):
    if order == "A" or order is None:
        order = "C"
    if order not in ("C", "F"):
        raise Unsupported("order")
    neg = None
    dims = []
    for k, s in enumerate(shape):
        p = as_poly(s)
        if p is None:
            raise Unsupported("reshape to %r" % (s,))
        if isinstance(s, float) or (isinstance(s, Sc) and s.kind == "float"):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if p.const() == -1:
            if neg is not None:
                raise ValueError("can only specify one unknown dimension")
            neg = k
            dims.append(None)
        else:
            dims.append(p)
    tot = PL.nrm(_prod(a.vshape))
    if neg is not None:
        known = [d for d in dims if d is not None]
        av = list(a.vshape)
        for d in list(known):
            k = next((i for i, s in enumerate(av) if same(s, d)), None)
            if k is not None:
                del av[k]
                known.remove(d)
        q = PL.nrm(_prod(av)) if not known else PL.pdiv_exact(PL.nrm(_prod(av)), _prod(known))
        if q is None:
            raise ValueError("cannot reshape array of size %s" % tot)
        dims[neg] = q
    if not same(tot, _prod(dims)):
        raise ValueError("cannot reshape array of size %s into shape (%s)" % (tot, ",".join(d.key for d in dims)))
    ix = [fresh(d, "i") for d in dims]
    # common outer dimensions keep their index; the others go through the flat index
    od, oa = (dims, list(a.vshape)) if order == "C" else (dims[::-1], list(a.vshape)[::-1])
    oi = ix if order == "C" else ix[::-1]
    m = 0
    while m < len(od) and m < len(oa) and same(od[m], oa[m]):
        m += 1
    flat = toP(0)
    for d, v in zip(od[m:], oi[m:]):
        flat = flat * d + toP(v)
    inner = []
    rest = flat
    for s in reversed(oa[m:]):
        q, r = PL.idivmod(rest, s) if PL.nrm(s).const() != 1 else (rest, toP(0))
        inner.append(r)
        rest = q
    idx = [toP(v) for v in oi[:m]] + inner[::-1]
    if order == "F":
        idx = idx[::-1]
    # keep as a true view when the map stays affine (ravel of contiguous / adding unit axes)
    r = new(dims, ix, a.at(idx), a.kind, a.cell.dt, ro=True, src=a)
    simple = len([d for d in dims if PL.nrm(d).const() != 1]) == len([d for d in a.vshape if PL.nrm(d).const() != 1])
    if simple:
        o = [PL.nrm(d).key for d in dims if PL.nrm(d).const() != 1]
        s = [PL.nrm(d).key for d in a.vshape if PL.nrm(d).const() != 1]
        if o == s:
            vs = [toP(v) for d, v in zip(dims, ix) if PL.nrm(d).const() != 1]
            mp = {}
            n = 0
            for d, v in zip(a.vshape, a.ix):
                if PL.nrm(d).const() != 1:
                    mp[v] = vs[n]
                    n += 1
                else:
                    mp[v] = toP(0)
            return Arr(a.cell, dims, ix, [m.sub(mp) for m in a.mp], a.alias_bad)
    return r


def squeeze(a, axis=None):
    if isinstance(a, Sc) or not isinstance(a, Arr):
        a = asarr(a)
    if axis is None:
        drop = []
        for n, s in enumerate(a.vshape):
            c = PL.nrm(s).const()
            if c == 1:
                drop.append(n)
            elif c is None and not ge0(s - 2):
                if bool(rt.cmp_nf(fromP(s - 1), "==")):
                    drop.append(n)
    else:
        axs = axis if isinstance(axis, tuple) else (axis,)
        drop = [x % a.ndim for x in axs]
        for d in drop:
            if PL.nrm(a.vshape[d]).const() != 1:
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    keep = [n for n in range(a.ndim) if n not in drop]
    mp = {a.ix[d]: toP(0) for d in drop}
    r = Arr(a.cell, [a.vshape[n] for n in keep], [a.ix[n] for n in keep], [m.sub(mp) for m in a.mp], a.alias_bad)
    return r
