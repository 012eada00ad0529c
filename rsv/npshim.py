"""Contracts of the numpy functions used by the code under verification (trusted: assumed contracts on numpy)."""
from fractions import Fraction
import builtins as _b
import math as _math
from . import poly as PL
from . import nf as N
from .nf import toNF, const, fromP, nsum, mul
from .poly import toP, fresh, same, ge0, P, IV, Dim
from . import rt
from .rt import RT, Sc, SB, Unsupported, join, kind_of, isnum, nfof, sint, as_poly, mk, isinf, sb_tok
from . import ten
from .ten import (Arr, SymSeq, DT, dk, asarr, build, new, ew, ew1, ewpow, ewcmp, bshape, bat, scalar, shape_of, generic, number, integer,
                  signedinteger, inexact, floating, complexfloating, float64, float32, complex128, complex64, int64, int32, bool_, object_)

F = Fraction
ndarray = Arr


class memmap(Arr):
    pass


dtype = DT
float_ = float64
double = float64
complex_ = complex128
cdouble = complex128
int_ = int64
intp = int64
float = float64      # numpy 1.23 alias of the builtin
complex = complex128
object = object_
inf = _math.inf
Inf = _math.inf
nan = _math.nan
newaxis = None


class finfo:
    def __init__(self, d=None):
        self.eps = mk(N.nfac(N.At("machine_eps", (), False, True, True)), "float")
        self.tiny = mk(N.nfac(N.At("machine_tiny", (), False, True, True)), "float")


pi = mk(N.nfac(N.At("pi", (), False, True, True)), "float")
e = mk(N.mk_exp(const(1)), "float")
__version__ = "1.23.5"

_THIS = "numpy"


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported("numpy.%s has no contract" % name)


def _P(v):
    return toP(v)


def _ax(axis, n):
    if axis is None:
        return list(_b.range(n))
    if isinstance(axis, (tuple, list)):
        return [int(a) % n for a in axis]
    if isinstance(axis, Sc):
        axis = axis.__index__()
    if not -n <= axis < n:
        raise ValueError("axis %s is out of bounds for array of dimension %d" % (axis, n))
    return [axis % n]


# ------------------------------------------------------------------ predicates
def _kindof(x):
    if isinstance(x, (Arr, Sc)):
        return x.kind
    if isinstance(x, (list, tuple, SymSeq)):
        return asarr(x).kind
    if isinstance(x, bool):
        return "bool"
    if isnum(x):
        return kind_of(x)
    if hasattr(x, "dtype"):
        return DT.of(x.dtype).k_
    return "object"


def iscomplexobj(x):
    return _kindof(x) == "complex"


def isrealobj(x):
    return not iscomplexobj(x)


def isscalar(x):
    return isinstance(x, (Sc, str)) or isnum(x) or isinstance(x, bool)


def ndim(x):
    return asarr(x).ndim


def shape(x):
    return asarr(x).shape


def size(x, axis=None):
    a = asarr(x)
    return a.size if axis is None else a.shape[axis]


def _canonic(d):
    """entries of an array with the index variables renamed canonically"""
    d = asarr(d)
    return d.at([toP(PL.IV("@%d" % k, sz)) for k, sz in enumerate(d.vshape)])


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    d = asarr(a - b)
    RT.events.append(("allclose", a, b, rtol, atol))
    if N.renorm(d.body()).iszero():
        return True
    # |a - b| <= atol + rtol |b| everywhere
    x, y = asarr(absolute(d)), asarr(absolute(b) + 0 * d if b.ndim != d.ndim else absolute(b))
    return sb_tok("allclose(%s | %s | %s | %s)" % (_canonic(x).key, _canonic(y).key, nfof(rtol).key, nfof(atol).key), ("allclose", d))


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for s, t in zip(a.vshape, b.vshape):
        if not same(s, t):
            if not bool(rt.cmp_nf(fromP(s - t), "==")):
                return False
    d = asarr(a - b)
    if N.renorm(d.body()).iszero():
        return True
    return sb_tok("array_equal(%s)" % d.body().key, ("eq", d))


def isnan(x):
    return ew1(lambda a: const(0), x, lambda k: "bool")


isinf_ = isnan


def isfinite(x):
    if rt.isinf(x):
        return False
    return ew1(lambda a: const(1), x, lambda k: "bool")


def issubdtype(a, b):
    a = DT.of(a).type
    if isinstance(b, type) and issubclass(b, generic):
        return issubclass(a, b)
    return issubclass(a, DT.of(b).type)


def result_type(*xs):
    ks = []
    for x in xs:
        if isinstance(x, (Arr, Sc)):
            ks.append(x.kind)
        elif isnum(x):
            ks.append(kind_of(x))
        else:
            ks.append(DT.of(x).k_)
    return DT(join(*ks))


promote_types = result_type


def common_type(*xs):
    return DT(join("float", *[x.kind for x in xs])).type


def all(x, axis=None, **k):
    if isinstance(x, (SB, bool)):
        return x
    a = asarr(x)
    if axis is not None:
        raise Unsupported("all(axis)")
    b = a.body()
    c = b.const()
    if c is not None:
        return bool(c[0])
    return sb_tok("all(%s)" % b.key, ("all", a))


def any(x, axis=None, **k):
    if isinstance(x, (SB, bool)):
        return x
    a = asarr(x)
    if axis is not None:
        raise Unsupported("any(axis)")
    c = a.body().const()
    if c is not None:
        return bool(c[0])
    return sb_tok("any(%s)" % a.body().key, ("any", a))


# ------------------------------------------------------------------ creation
def zeros(shape, dtype=None, order="C", **k):
    return build(shape_of(shape), lambda *i: const(0), dk(dtype), DT.of(dtype).name)


def ones(shape, dtype=None, order="C", **k):
    return build(shape_of(shape), lambda *i: const(1), dk(dtype))


def full(shape, v, dtype=None, **k):
    r = asarr(v)
    kd = dk(dtype) if dtype is not None else r.kind
    sh = shape_of(shape)
    return build(sh, lambda *i: ten.castnf(bat(r, list(i)), r.kind, kd), kd)


def empty(shape, dtype=None, order="C", **k):
    kd = dk(dtype)
    nm = "uninit#%d" % RT.ndraw
    RT.ndraw += 1
    return build(shape_of(shape), lambda *i: N.nfac(N.At(nm, i, False, kd != "complex")), kd)


def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return zeros(a.shape, dtype if dtype is not None else a.dtype)


def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return ones(a.shape, dtype if dtype is not None else a.dtype)


def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return empty(a.shape, dtype if dtype is not None else a.dtype)


def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    return full(a.shape, v, dtype if dtype is not None else a.dtype)


def eye(n, m=None, k=0, dtype=None, order="C"):
    m = n if m is None else m
    k = as_poly(k)
    return build(shape_of((n, m)), lambda i, j: N.delta(i + k, j), dk(dtype))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def arange(*a, dtype=None):
    a = list(a)
    st, sp, step = toP(0), None, 1
    if len(a) == 1:
        sp = as_poly(a[0])
    else:
        st, sp = as_poly(a[0]), as_poly(a[1])
        if len(a) > 2:
            step = a[2]
    if st is None or sp is None or step != 1:
        raise Unsupported("arange arguments")
    if builtins_any(isinstance(x, _b.float) or (isinstance(x, Sc) and x.kind == "float") for x in a):
        raise Unsupported("arange of floats")
    r = build([sp - st], lambda i: fromP(st + i), "int")
    return r.astype(dtype) if dtype is not None else r


builtins_any = _b.any
builtins_all = _b.all


def asarray(x, dtype=None, order=None, **k):
    return asarr(x, dtype)


asanyarray = asarray
ascontiguousarray = asarray
asfortranarray = asarray


def array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    if isinstance(x, Arr):
        r = x.copy() if copy else x
        if dtype is not None:
            r = r.astype(dtype)
    else:
        r = asarr(x, dtype)
        if copy and r is x:
            r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def copy(a, order="K"):
    return asarr(a).copy()


def atleast_1d(*xs):
    r = [asarr(x) if asarr(x).ndim else asarr(x)[None] for x in xs]
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in xs:
        x = asarr(x)
        if x.ndim == 0:
            x = x[None, None]
        elif x.ndim == 1:
            x = x[None, :]
        r.append(x)
    return r[0] if len(r) == 1 else r


def diag(v, k=0):
    v = asarr(v)
    if k != 0:
        raise Unsupported("diag offset")
    if v.ndim == 1:
        n = v.vshape[0]
        return build([n, n], lambda i, j: mul(N.delta(i, j), v.at([i])), v.kind)
    if v.ndim == 2:
        return diagonal(v)
    raise ValueError("Input must be 1- or 2-d.")


diagflat = diag


def _sq(a, b, what):
    """sizes of two axes known equal, or an exception path"""
    if not same(a, b):
        if not bool(rt.cmp_nf(fromP(a - b), "==")):
            raise N_linalg_error("Last 2 dimensions of the array must be square")
    return a


def N_linalg_error(msg):
    return linalg.LinAlgError(msg)


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    if offset != 0:
        raise Unsupported("diagonal offset")
    x1, x2 = axis1 % a.ndim, axis2 % a.ndim
    if not same(a.vshape[x1], a.vshape[x2]):
        raise Unsupported("diagonal of a non-square array")
    keep = [k for k in _b.range(a.ndim) if k not in (x1, x2)]

    sh = [a.vshape[k] for k in keep] + [a.vshape[x1]]
    ix = [fresh(x, "i") for x in sh]
    idx = [None] * a.ndim
    for k, i in zip(keep, ix[:-1]):
        idx[k] = toP(i)
    idx[x1] = idx[x2] = toP(ix[-1])
    return ten.view(a, sh, ix, idx, "ro")


def trace(a, offset=0, axis1=0, axis2=1, **k):
    a = asarr(a)
    if a.ndim < 2:
        raise ValueError("diag requires an array of at least two dimensions")
    x1, x2 = axis1 % a.ndim, axis2 % a.ndim
    n = a.vshape[x1]
    if not same(n, a.vshape[x2]):
        if ge0(a.vshape[x2] - n):
            pass
        elif ge0(n - a.vshape[x2]):
            n = a.vshape[x2]
        else:
            raise Unsupported("trace of a non-square array")
    d = diagonal(a, offset, axis1, axis2)
    return sum(d, axis=-1)


# ------------------------------------------------------------------ element-wise
def real(x):
    if isinstance(x, Arr):
        return x.real
    a = asarr(x)
    return a.real if a.ndim else scalar(N.re(a.at([])), "float" if a.kind == "complex" else a.kind)


def imag(x):
    if isinstance(x, Arr):
        return x.imag
    a = asarr(x)
    return a.imag if a.ndim else scalar(N.im(a.at([])), "float" if a.kind == "complex" else a.kind)


def conjugate(x):
    return ew1(N.conj, x)


conj = conjugate


def absolute(x):
    return ew1(lambda a: N.mk_fn("abs", [a]), x, lambda k: "float" if k == "complex" else k)


abs = absolute
fabs = absolute


def _fl(k):
    return join(k, "float")


def sqrt(x):
    if isinstance(x, (int, _b.float)) and not isinstance(x, bool) and x >= 0:
        return mk(N.npow(const(x), F(1, 2)), "float")
    if isinstance(x, Sc) and x.kind in ("int",):
        p = as_poly(x)
        if p is not None:
            r = PL.psqrt(PL.nrm(p))
            if r is not None:
                return mk(fromP(r), "float")
    return ew1(lambda a: N.npow(a, F(1, 2)) if not a.iszero() else a, x, _fl)


def square(x):
    return ew1(lambda a: mul(a, a), x)


def exp(x):
    return ew1(N.mk_exp, x, _fl)


def log(x):
    return ew1(N.mk_log, x, _fl)


def log1p(x):
    return ew1(lambda a: N.mk_log(const(1) + a), x, _fl)


def log2(x):
    return log(x) / log(2)


def log10(x):
    return log(x) / log(10)


def sign(x):
    return ew1(lambda a: N.mk_fn("sign", [a]), x)


def reciprocal(x):
    return 1 / asarr(x)


def negative(x):
    return -asarr(x)


def positive(x):
    return asarr(x)


def add(a, b, **k):
    return ew(lambda x, y: x + y, a, b)


def subtract(a, b, **k):
    return ew(lambda x, y: x - y, a, b)


def multiply(a, b, **k):
    return ew(N.mul, a, b)


def divide(a, b, **k):
    return ew(rt.divnf, a, b, kf=_fl)


true_divide = divide


def power(a, b):
    if isinstance(a, (Arr, list, tuple)) or isinstance(b, (Arr, list, tuple)):
        if kind_of_any(a) == "int" and kind_of_any(b) == "int" and isinstance(b, Arr):
            pass
        return ewpow(a if isinstance(a, Arr) else asarr(a) if isinstance(a, (list, tuple)) else a, b if isinstance(b, Arr) else asarr(b) if isinstance(b, (list, tuple)) else b)
    return rt.power(a, b)


float_power = power


def kind_of_any(x):
    return _kindof(x)


def minimum(a, b):
    if rt.isinf(a) or rt.isinf(b):
        if rt.isinf(b):
            a, b = b, a
        return b if a > 0 else a
    return ew(lambda x, y: N.mk_fn("min", [x, y]), a, b)


def maximum(a, b):
    return ew(lambda x, y: N.mk_fn("max", [x, y]), a, b)


fmin, fmax = minimum, maximum


def clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def _same_sign(u, v):
    """1 (-1) when u = m v with a positive (negative) monomial m, else 0"""
    def prim(n):
        if not n.t or len(n.t) > 40:
            return None
        c, com = N.content(n)
        if c[1] != 0 or not _b.all(f.pos and f.real for f in com):
            return None
        q = N.div_content(n, c, com)
        if not q.t:
            return None
        T = _b.min(q.t, key=lambda t: t.key)
        k = q.t[T]
        if k[1] != 0:
            return None
        q = N.scale(q, N.cinv(k))
        return (c[0] * k[0] > 0), q.key
    a, b = prim(u), prim(v)
    if a is None or b is None or a[1] != b[1]:
        return 0
    return 1 if a[0] == b[0] else -1


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    if isinstance(c, (SB, bool)):
        c = bool(c)
        return (asarr(a) if c else asarr(b)).copy()

    def f(cc, x, y):
        # where(x > y, ..) recognised as max / min
        m = N.mono(cc)
        if m and m[0] == (1, 0) and not m[1].bounds and len(m[1].facs) == 1 and isinstance(m[1].facs[0][0], N.Fn):
            fn = m[1].facs[0][0]
            if fn.name in ("[>]", "[>=]"):
                d = fn.args[0]
                if d.key == (x - y).key:
                    return N.mk_fn("max", [x, y])
                if d.key == (y - x).key:
                    return N.mk_fn("min", [x, y])
                r = _same_sign(x - y, d)
                if r:
                    return N.mk_fn("max" if r > 0 else "min", [x, y])
        return mul(cc, x) + mul(const(1) - cc, y)
    c = asarr(c)
    k = join(_kindof(a), _kindof(b))
    return ew(f, c, a, b, kf=lambda kk: k)


def round(x, decimals=0, **k):
    if decimals != 0:
        raise Unsupported("round to decimals")
    p = as_poly(x) if not isinstance(x, Arr) else None
    if p is not None and rt.int_valued(p):
        return mk(fromP(p), "float") if not isinstance(x, int) else x
    if isinstance(x, _b.float):
        return _b.float(_b.round(x))
    return ew1(lambda a: N.mk_fn("round", [a]), x)


round_ = round
around = round
rint = round


def floor(x):
    p = as_poly(x) if not isinstance(x, Arr) else None
    if p is not None:
        return mk(nfof(rt.to_int(x)), "float")
    return ew1(lambda a: N.mk_fn("floor", [a]), x)


def ceil(x):
    raise Unsupported("ceil")


def greater(a, b):
    return ewcmp(a, b, ">")


def less(a, b):
    return ewcmp(b, a, ">")


def greater_equal(a, b):
    return ewcmp(a, b, ">=")


def less_equal(a, b):
    return ewcmp(b, a, ">=")


def equal(a, b):
    return ewcmp(a, b, "==")


def logical_not(a):
    return rt.sb_not(a) if isinstance(a, (SB, bool)) else ~asarr(a)


def logical_and(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return rt.sb_and([a, b])
    return asarr(a) & asarr(b)


def logical_or(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return rt.sb_or([a, b])
    return asarr(a) | asarr(b)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    raise Unsupported("isclose")


# ------------------------------------------------------------------ reductions
def sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)) and not a:
        return mk(const(0), "float")
    a = asarr(a)
    if a.kind == "bool":
        a = a.astype("int")
    axs = _ax(axis, a.ndim)
    keep = [d for d in _b.range(a.ndim) if d not in axs]
    ix = a.formals()
    body = a.at([toP(v) for v in ix])
    for d in axs:
        body = nsum(body, ix[d])
    if keepdims:
        oi = [ix[d] if d in keep else fresh(toP(1), "i") for d in _b.range(a.ndim)]
        return new([a.vshape[d] if d in keep else toP(1) for d in _b.range(a.ndim)], oi, body, a.kind)
    if not keep:
        return scalar(body, a.kind)
    return new([a.vshape[d] for d in keep], [ix[d] for d in keep], body, a.kind)


def prod(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = r * x
        return r
    a = asarr(a)
    if axis is None and a.ndim == 1:
        c = PL.nrm(a.vshape[0]).const()
        if c is not None:
            r = const(1)
            for i in _b.range(int(c)):
                r = mul(r, a.at([toP(i)]))
            return scalar(r, a.kind)
        i = fresh(a.vshape[0], "i")
        return scalar(N.mk_exp(nsum(N.mk_log(a.at([toP(i)])), i)), a.kind)
    raise Unsupported("prod")


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(a)
    n = toP(1)
    for d in _ax(axis, a.ndim):
        n = n * a.vshape[d]
    s = sum(a, axis=axis, keepdims=keepdims)
    return s / sint(n)


def average(a, axis=None, weights=None, **k):
    if weights is not None:
        raise Unsupported("weighted average")
    return mean(a, axis)


def var(a, axis=None, ddof=0, keepdims=False, **k):
    a = asarr(a)
    d = absolute(a - mean(a, axis, keepdims=True))
    n = toP(1)
    for x in _ax(axis, a.ndim):
        n = n * a.vshape[x]
    return sum(d * d, axis=axis, keepdims=keepdims) / sint(n - toP(ddof))


def std(a, **k):
    return sqrt(var(a, **k))


def cumsum(a, axis=None, **k):
    raise Unsupported("cumsum")


def amax(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        r = a[0]
        for x in a[1:]:
            r = maximum(r, x)
        return r
    return _ext("max", a, axis)


def amin(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        r = a[0]
        for x in a[1:]:
            r = minimum(r, x)
        return r
    return _ext("min", a, axis)


def _ext(nm, a, axis):
    a = asarr(a)
    if axis is None and builtins_all(PL.nrm(s).const() == 1 for s in a.vshape):
        return scalar(a.at([toP(0)] * a.ndim), a.kind)
    if getattr(a, "descending", False) and a.ndim == 1:
        return scalar(a.at([toP(0) if nm == "max" else a.vshape[0] - 1]), a.kind)
    raise Unsupported("array " + nm)


max, min = amax, amin


# ------------------------------------------------------------------ products
def dot(a, b, out=None):
    if not isinstance(a, (Arr, list, tuple)) or not isinstance(b, (Arr, list, tuple)):
        return a * b
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim <= 2:
        return _contract(a, b, a.ndim - 1, 0 if b.ndim == 1 else b.ndim - 2)
    raise Unsupported("dot of high rank")


def _mm_check(s, t):
    if not same(s, t):
        if not bool(rt.cmp_nf(fromP(s - t), "==")):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %s is different from %s)" % (t, s))


def _contract(a, b, ia, ib):
    _mm_check(a.vshape[ia], b.vshape[ib])
    fa, fb = a.formals(), b.formals()
    k = fresh(a.vshape[ia], "k")
    xa = [toP(k) if d == ia else toP(v) for d, v in enumerate(fa)]
    xb = [toP(k) if d == ib else toP(v) for d, v in enumerate(fb)]
    body = nsum(mul(a.at(xa), b.at(xb)), k)
    sh = [s for d, s in enumerate(a.vshape) if d != ia] + [s for d, s in enumerate(b.vshape) if d != ib]
    ix = [v for d, v in enumerate(fa) if d != ia] + [v for d, v in enumerate(fb) if d != ib]
    kd = join(a.kind, b.kind)
    if not sh:
        return scalar(body, kd)
    return new(sh, ix, body, kd)


def vdot(a, b):
    return dot(conjugate(asarr(a).ravel()), asarr(b).ravel())


def inner(a, b):
    a, b = asarr(a), asarr(b)
    return _contract(a, b, a.ndim - 1, b.ndim - 1)


def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return a[:, None] * b[None, :]


def matmul(a, b):
    if isnum(a) or isnum(b) or isinstance(a, Sc) or isinstance(b, Sc):
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        return _contract(a, b, a.ndim - 1, 0 if b.ndim == 1 else b.ndim - 2)
    if a.ndim == 1:
        r = matmul(a[None, :], b)
        return r[..., 0, :]
    if b.ndim == 1:
        r = matmul(a, b[:, None])
        return r[..., 0]
    _mm_check(a.vshape[-1], b.vshape[-2])
    # batch
    ba = build(a.vshape[:-2], lambda *i: const(0), "int")
    bb = build(b.vshape[:-2], lambda *i: const(0), "int")
    bs = bshape([ba, bb])
    nb = len(bs)

    def fn(*ix):
        bi = ix[:nb]
        i, j = ix[nb], ix[nb + 1]

        def bidx(x):
            kk = nb - (x.ndim - 2)
            return [toP(0) if PL.nrm(s).const() == 1 else p for s, p in zip(x.vshape[:-2], bi[kk:])]
        k = fresh(a.vshape[-1], "k")
        return nsum(mul(a.at(bidx(a) + [i, toP(k)]), b.at(bidx(b) + [toP(k), j])), k)
    return build(list(bs) + [a.vshape[-2], b.vshape[-1]], fn, join(a.kind, b.kind))


def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum without a subscript string")
    spec = spec.replace(" ", "")
    ops = [asarr(o) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(c for c in ins if c.isalpha()))
        out = "".join(c for c in letters if ins.count(c) == 1)
        if "..." in ins:
            out = "..." + out
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum operand count")
    ell = []
    if builtins_any("..." in s for s in ins):
        ne = _b.max(o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s)
        ell = ["@%d" % q for q in _b.range(ne)]
    subs = []
    for s, o in zip(ins, ops):
        lab = list(s.replace("...", "."))
        full = []
        for c in lab:
            if c == ".":
                q = o.ndim - (len(lab) - 1)
                full += ell[len(ell) - q:]
            else:
                full.append(c)
        if len(full) != o.ndim:
            raise ValueError("einstein sum subscripts string has wrong number of subscripts for operand")
        subs.append(full)
    olab = []
    for c in list(out.replace("...", ".")):
        if c == ".":
            olab += ell
        else:
            olab.append(c)
    sizes = {}
    for full, o in zip(subs, ops):
        for c, s in zip(full, o.vshape):
            s = PL.nrm(s)
            if c not in sizes or (sizes[c].const() == 1 and s.const() != 1):
                sizes[c] = s
            elif s.const() == 1:
                pass
            elif not same(sizes[c], s):
                if not bool(rt.cmp_nf(fromP(sizes[c] - s), "==")):
                    raise ValueError("operands could not be broadcast together with remapped shapes (einsum)")
    for c in olab:
        if c not in sizes:
            raise ValueError("einstein sum subscripts string included output subscript '%s' which never appeared in an input" % c)
    v = {c: fresh(s, "i") for c, s in sizes.items()}
    body = const(1)
    for full, o in zip(subs, ops):
        body = mul(body, o.at([toP(0) if PL.nrm(s).const() == 1 and sizes[c].const() != 1 else toP(v[c]) for c, s in zip(full, o.vshape)]))
    for c in sizes:
        if c not in olab:
            body = nsum(body, v[c])
    kd = join(*[o.kind for o in ops])
    if not olab:
        return scalar(body, kd)
    if len(ops) == 1 and len(set(olab)) == len(olab) and set(olab) == set(sizes):
        # a pure rearrangement of one operand is a view of it
        return ten.view(ops[0], [sizes[c] for c in olab], [v[c] for c in olab], [toP(v[c]) for c in subs[0]])
    return new([sizes[c] for c in olab], [v[c] for c in olab], body, kd)


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, (int, Sc)):
        n = int(axes) if isinstance(axes, int) else axes.__index__()
        aa, bb = list(_b.range(a.ndim - n, a.ndim)), list(_b.range(n))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    fa, fb = a.formals(), b.formals()
    ks = []
    xa, xb = [toP(v) for v in fa], [toP(v) for v in fb]
    for i, j in zip(aa, bb):
        if not same(a.vshape[i], b.vshape[j]):
            if not bool(rt.cmp_nf(fromP(a.vshape[i] - b.vshape[j]), "==")):
                raise ValueError("shape-mismatch for sum")
        k = fresh(a.vshape[i], "k")
        xa[i] = toP(k)
        xb[j] = toP(k)
        ks.append(k)
    body = mul(a.at(xa), b.at(xb))
    for k in ks:
        body = nsum(body, k)
    sh = [s for d, s in enumerate(a.vshape) if d not in aa] + [s for d, s in enumerate(b.vshape) if d not in bb]
    ix = [v for d, v in enumerate(fa) if d not in aa] + [v for d, v in enumerate(fb) if d not in bb]
    kd = join(a.kind, b.kind)
    if not sh:
        return new([], [], body, kd)
    return new(sh, ix, body, kd)


def kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron of non-matrices")
    m, n = b.vshape

    def fn(i, j):
        qi, ri = PL.idivmod(i, m)
        qj, rj = PL.idivmod(j, n)
        return mul(a.at([qi, qj]), b.at([ri, rj]))
    return build([a.vshape[0] * m, a.vshape[1] * n], fn, join(a.kind, b.kind))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("cov options")
    x = asarr(m)
    if x.ndim == 1:
        x = x[None, :]
    if not rowvar and not same(x.vshape[0], 1):
        x = x.T
    n = x.vshape[1]
    dd = ddof if ddof is not None else (0 if bias else 1)
    dd = int(dd)
    if x.kind in ("int", "bool"):
        x = x.astype("float")
    xm = x - mean(x, 1)[:, None]
    r = matmul(xm, xm.T.conj()) / sint(n - toP(dd))
    return squeeze(r)


# ------------------------------------------------------------------ shape manipulation
def reshape(a, shape, order="C"):
    return asarr(a).reshape(shape, order=order)


def ravel(a, order="C"):
    return asarr(a).ravel(order)


def transpose(a, axes=None):
    return asarr(a).transpose(axes)


def swapaxes(a, x, y):
    return asarr(a).swapaxes(x, y)


def moveaxis(a, s, d):
    a = asarr(a)
    s, d = s % a.ndim, d % a.ndim
    o = [k for k in _b.range(a.ndim) if k != s]
    o.insert(d, s)
    return a.transpose(o)


def squeeze(a, axis=None):
    if isinstance(a, Sc):
        return asarr(a)
    return ten.squeeze(asarr(a), axis)


def expand_dims(a, axis):
    a = asarr(a)
    n = a.ndim + 1
    axis = axis % n
    return a[tuple([slice(None)] * axis + [None])]


def broadcast_to(a, shape):
    a = asarr(a)
    sh = shape_of(shape)
    z = build(sh, lambda *i: const(0), "int")
    bs = bshape([a, z])
    if len(bs) != len(sh) or not builtins_all(same(x, y) for x, y in zip(bs, sh)):
        raise ValueError("broadcast")
    ix = [fresh(x, "i") for x in sh]
    k = len(sh) - a.ndim
    return ten.view(a, sh, ix, [toP(0) if PL.nrm(s).const() == 1 and not same(s, t) else toP(i) for s, t, i in zip(a.vshape, sh[k:], ix[k:])], "ro")


def _pick(parts, sizes, i, at):
    """piecewise entry of a concatenation at position i"""
    tot = const(0)
    lo = toP(0)
    for k, (a, s) in enumerate(zip(parts, sizes)):
        hi = lo + s
        c = const(1)
        if lo.t:
            c = mul(c, N.mk_iv("ge", i - lo))
        if k < len(parts) - 1:
            c = mul(c, N.mk_iv("ge", hi - 1 - i))
        if not c.iszero():
            tot = tot + mul(c, at(a, i - lo))
        lo = hi
    return tot


def concatenate(xs, axis=0, out=None, dtype=None, **k):
    if isinstance(xs, Arr):
        if xs.ndim < 2:
            raise ValueError("zero-dimensional arrays cannot be concatenated")
        n = PL.nrm(xs.vshape[0]).const()
        if n is None:
            # concatenating the rows of a symbolic-length stack along axis
            ax = axis % (xs.ndim - 1)
            s0 = xs.vshape[1:]
            m = s0[ax]
            sh = list(s0)
            sh[ax] = xs.vshape[0] * m

            def fn(*ix):
                q, r = PL.idivmod(ix[ax], m)
                return xs.at([q] + [r if d == ax else p for d, p in enumerate(ix)])
            return build(sh, fn, xs.kind)
        xs = [xs[i] for i in _b.range(int(n))]
    if isinstance(xs, SymSeq):
        return concatenate(xs.stack(), axis)
    xs = [asarr(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    nd = xs[0].ndim
    if builtins_any(x.ndim != nd for x in xs):
        raise ValueError("all the input array dimensions must match exactly")
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = _ax(axis, nd)[0] if axis is not None else None
    if ax is None:
        xs = [x.ravel() for x in xs]
        ax, nd = 0, 1
    for x in xs[1:]:
        for d in _b.range(nd):
            if d != ax and not same(x.vshape[d], xs[0].vshape[d]):
                if not bool(rt.cmp_nf(fromP(x.vshape[d] - xs[0].vshape[d]), "==")):
                    raise ValueError("all the input array dimensions for the concatenation axis must match exactly")
    sh = list(xs[0].vshape)
    sizes = [x.vshape[ax] for x in xs]
    sh[ax] = ten._prod([])
    tot = toP(0)
    for s in sizes:
        tot = tot + s
    sh[ax] = tot
    kd = join(*[x.kind for x in xs])

    def fn(*ix):
        return _pick(xs, sizes, ix[ax], lambda a, p: a.at([p if d == ax else q for d, q in enumerate(ix)]))
    return build(sh, fn, kd)


def _stack(parts, axis):
    nd = parts[0].ndim
    for x in parts[1:]:
        for d in _b.range(nd):
            if not same(x.vshape[d], parts[0].vshape[d]):
                if not bool(rt.cmp_nf(fromP(x.vshape[d] - parts[0].vshape[d]), "==")):
                    raise ValueError("setting an array element with a sequence / all input arrays must have the same shape")
    n = len(parts)
    sh = list(parts[0].vshape)
    sh.insert(axis, toP(n))
    kd = join(*[x.kind for x in parts])
    if n == 1:
        return build(sh, lambda *ix: parts[0].at([p for d, p in enumerate(ix) if d != axis]), kd)

    def fn(*ix):
        rest = [p for d, p in enumerate(ix) if d != axis]
        t = const(0)
        for k, a in enumerate(parts):
            c = N.delta(ix[axis], toP(k))
            if not c.iszero():
                t = t + mul(c, a.at(rest))
        return t
    return build(sh, fn, kd)


def stack(xs, axis=0, **k):
    if isinstance(xs, Arr):
        n = PL.nrm(xs.vshape[0]).const()
        if n is None:
            return moveaxis(xs, 0, axis)
        xs = list(xs)
    if isinstance(xs, SymSeq):
        r = xs.stack()
        return moveaxis(r, 0, axis) if axis else r
    xs = [asarr(x) for x in xs]
    nd = xs[0].ndim + 1
    return _stack(xs, axis % nd)


def vstack(xs, **k):
    if isinstance(xs, Arr) and xs.ndim >= 2:
        n = PL.nrm(xs.vshape[0]).const()
        if n is None:
            if xs.ndim == 2:
                return xs.copy()
            return concatenate(xs, 0)
        xs = list(xs)
    if isinstance(xs, SymSeq):
        s = xs.stack()
        return vstack(s) if s.ndim >= 2 else s[:, None]
    if isinstance(xs, Arr):
        xs = list(xs)
    return concatenate([atleast_2d(x) for x in xs], 0)


row_stack = vstack


def hstack(xs, **k):
    if isinstance(xs, (Arr, SymSeq)) and not isinstance(xs, SymSeq) and PL.nrm(xs.vshape[0]).const() is None:
        return concatenate(xs, 0 if xs.ndim == 2 else 1)
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs):
    xs = [asarr(x) for x in xs]
    return concatenate([x[:, None] if x.ndim == 1 else x for x in xs], 1)


def block(rows):
    if not isinstance(rows, list):
        return asarr(rows)
    if not isinstance(rows[0], list):
        return concatenate([atleast_1d(r) for r in rows], -1)
    return concatenate([concatenate([atleast_2d(x) for x in r], -1) for r in rows], -2)


def split(a, n, axis=0):
    a = asarr(a)
    s = a.vshape[axis % a.ndim]
    if not isinstance(n, int):
        raise Unsupported("split")
    q = PL.pdiv_exact(s, toP(n))
    if q is None:
        raise ValueError("array split does not result in an equal division")
    out = []
    for k in _b.range(n):
        key = [slice(None)] * a.ndim
        key[axis % a.ndim] = slice(sint(q.scale(k)), sint(q.scale(k + 1)))
        out.append(a[tuple(key)])
    return out


array_split = split


def hsplit(a, n):
    return split(a, n, 1 if asarr(a).ndim > 1 else 0)


def vsplit(a, n):
    return split(a, n, 0)


def tile(a, reps):
    a = asarr(a)
    reps = shape_of(reps if isinstance(reps, (tuple, list)) else (reps,))
    nd = _b.max(a.ndim, len(reps))
    while a.ndim < nd:
        a = a[None]
    reps = [toP(1)] * (nd - len(reps)) + list(reps)

    def fn(*ix):
        idx = []
        for p, s, r in zip(ix, a.vshape, reps):
            if PL.nrm(r).const() == 1:
                idx.append(p)
            elif PL.nrm(s).const() == 1:
                idx.append(toP(0))
            else:
                idx.append(PL.idivmod(p, s)[1])
        return a.at(idx)
    return build([s * r for s, r in zip(a.vshape, reps)], fn, a.kind)


def repeat(a, n, axis=None):
    a = asarr(a)
    p = as_poly(n)
    if p is None:
        raise Unsupported("repeat")
    if axis is None:
        a, axis = a.ravel(), 0
    axis %= a.ndim
    sh = list(a.vshape)
    sh[axis] = sh[axis] * p

    def fn(*ix):
        q = PL.idivmod(ix[axis], p)[0]
        return a.at([q if d == axis else x for d, x in enumerate(ix)])
    return build(sh, fn, a.kind)


def flip(a, axis=None):
    a = asarr(a)
    axs = _ax(axis, a.ndim)
    ix = a.formals()
    return ten.view(a, a.vshape, ix, [s - 1 - toP(p) if d in axs else toP(p) for d, (p, s) in enumerate(zip(ix, a.vshape))])


def take(a, ind, axis=None, **k):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    key = [slice(None)] * a.ndim
    key[axis % a.ndim] = asarr(ind) if isinstance(ind, (Arr, list, tuple)) else ind
    return a[tuple(key)]


def triu_indices(n, k=0, m=None):
    if k != 0 or m is not None:
        raise Unsupported("triu_indices offset")
    n = as_poly(n)
    T = PL.toP(n) * (n + 1)
    T = T.scale(F(1, 2))
    r = build([T], lambda t: fromP(PL.mkif("triu_r", (n, t))), "int")
    c = build([T], lambda t: fromP(PL.mkif("triu_c", (n, t))), "int")
    return (r, c)


def tril_indices(n, k=0, m=None):
    if k != 0 or m is not None:
        raise Unsupported("tril_indices offset")
    n = as_poly(n)
    T = (n * (n + 1)).scale(F(1, 2))
    r = build([T], lambda t: fromP(PL.mkif("tril_r", (n, t))), "int")
    c = build([T], lambda t: fromP(PL.mkif("tril_c", (n, t))), "int")
    return (r, c)


def diag_indices(n, ndim=2):
    n = as_poly(n)
    return tuple(build([n], lambda t: fromP(t), "int") for _ in _b.range(ndim))


def diag_indices_from(a):
    return diag_indices(a.shape[0])


def triu_indices_from(a, k=0):
    return triu_indices(a.shape[0], k)


def triu(a, k=0):
    a = asarr(a)
    return build(a.vshape, lambda *ix: mul(N.mk_iv("ge", ix[-1] - ix[-2] - toP(k)), a.at(ix)), a.kind)


def tril(a, k=0):
    a = asarr(a)
    return build(a.vshape, lambda *ix: mul(N.mk_iv("ge", ix[-2] - ix[-1] + toP(k)), a.at(ix)), a.kind)


def fill_diagonal(a, v, wrap=False):
    n = a.shape[0]
    a[diag_indices(n)] = v


def copyto(dst, src, **k):
    dst[...] = src


def meshgrid(*a, **k):
    raise Unsupported("meshgrid")


def vectorize(*a, **k):
    raise Unsupported("vectorize")


def errstate(**k):
    import contextlib
    return contextlib.nullcontext()


def seterr(**k):
    return {}


# ------------------------------------------------------------------ linear algebra
class _Mod:
    """sub-module namespace: unknown names are outside the subset"""

    def __init__(self, name, **k):
        self.__name__ = name
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s has no contract" % (self.__dict__.get("__name__"), n))


class LinAlgError(Exception):
    pass


def matobj(a, pre):
    """matrix object for the trailing two axes of a, at batch indices pre"""
    r, c = fresh(a.vshape[-2], "i"), fresh(a.vshape[-1], "i")
    n = a.at(list(pre) + [toP(r), toP(c)])
    return N.mat_from(n, r, c, a.vshape[-1])


def _square(a):
    if a.ndim < 2:
        raise LinAlgError("%d-dimensional array given. Array must be at least two-dimensional" % a.ndim)
    if not same(a.vshape[-1], a.vshape[-2]):
        if not bool(rt.cmp_nf(fromP(a.vshape[-1] - a.vshape[-2]), "==")):
            raise LinAlgError("Last 2 dimensions of the array must be square")


def _fk(k):
    return join(k, "float")


def _specfun(g):
    def f(a):
        a = asarr(a)
        _square(a)
        nb = a.ndim - 2

        def fn(*ix):
            M = matobj(a, ix[:nb])
            return N.mk_sp(g, M, ix[nb], ix[nb + 1])
        return build(a.vshape, fn, _fk(a.kind))
    return f


def inv(a):
    return _specfun(N.npow(N.LAM, -1))(a)


def solve(a, b):
    a, b = asarr(a), asarr(b)
    ia = inv(a)
    if b.ndim == a.ndim - 1:
        return matmul(ia, b[..., None])[..., 0]
    return matmul(ia, b)


def det(a):
    a = asarr(a)
    _square(a)
    nb = a.ndim - 2
    if nb == 0:
        return scalar(N.mk_det(matobj(a, [])), _fk(a.kind))
    return build(a.vshape[:-2], lambda *ix: N.mk_det(matobj(a, ix)), _fk(a.kind))


def slogdet(a):
    a = asarr(a)
    d = det(a)
    lg = log(real(d)) if a.kind == "complex" else log(d)
    if isinstance(d, Arr):
        if not builtins_all(N.ispos(matobj(a, [toP(v) for v in d.formals()]).at(toP(0), toP(0))) for _ in [0]):
            pass
        if not _pdobj(a):
            raise Unsupported("slogdet of a matrix not known positive definite")
        return ones(d.shape, d.dtype), lg
    if not _pdobj(a):
        raise Unsupported("slogdet of a matrix not known positive definite")
    return mk(const(1), d.kind), lg


def _pdobj(a):
    M = matobj(a, [toP(v) for v in a.formals()[:a.ndim - 2]])
    return M.pd


def _herm(a):
    return matobj(a, [toP(v) for v in a.formals()[:a.ndim - 2]]).herm


def eigh(a, UPLO="L", **k):
    a = asarr(a)
    _square(a)
    nb = a.ndim - 2
    if not _herm(a):
        raise Unsupported("eigh of a matrix not provably Hermitian: %s" % N.show(a.body(), 300))
    w = build(a.vshape[:-1], lambda *ix: N.nfac(N.EL(matobj(a, ix[:nb]), ix[nb])) if False else _el(matobj(a, ix[:nb]), ix[nb]), "float")
    v = build(a.vshape, lambda *ix: _ev(matobj(a, ix[:nb]), ix[nb], ix[nb + 1]), _fk(a.kind))
    return w, v


def _el(M, k):
    return N.nfac(N.EL(M, k))


def _ev(M, i, k):
    return N.nfac(N.EV(M, i, k))


def eigvalsh(a, **k):
    return eigh(a)[0]


def cholesky(a):
    a = asarr(a)
    _square(a)
    nb = a.ndim - 2
    if not _pdobj(a):
        if not _herm(a):
            raise Unsupported("cholesky of a matrix not provably Hermitian positive definite")
    return build(a.vshape, lambda *ix: N.nfac(N.Ch(matobj(a, ix[:nb]), ix[nb], ix[nb + 1])), _fk(a.kind))


def gram_eigs(M):
    """k -> k-th largest eigenvalue of M^H M (an uninterpreted function of that matrix; 0 for the zero matrix)"""
    m, n = M.vshape
    g = build([n, n], lambda i, j: nsum_of(m, lambda t: mul(N.conj(M.at([t, i])), M.at([t, j]))), M.kind)
    b = g.body()
    if b.iszero():
        return lambda k: const(0)
    ix = g.formals()
    prm = N.ALam(g.vshape, ix, g.at([toP(v) for v in ix]))
    return lambda k: N.nfac(N.At("?eigdesc", (toP(k),), False, True, False, (prm,)))


def nsum_of(n, f):
    t = fresh(toP(n), "t")
    return nsum(f(toP(t)), t)


def svdvals(a, **k):
    a = asarr(a)
    if a.ndim != 2:
        raise Unsupported("batched singular values")
    m, n = a.vshape
    if not same(m, n):
        raise Unsupported("singular values of a rectangular matrix")
    e = gram_eigs(a)
    r = build([n], lambda i: N.npow(e(i), F(1, 2)) if not e(i).iszero() else const(0), "float")
    r.descending = True
    return r


def svd(a, full_matrices=True, compute_uv=True, **k):
    if compute_uv:
        raise Unsupported("singular vectors")
    return svdvals(a)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if ord == 2 and axis is None and x.ndim == 2 and not keepdims:
        v = gram_eigs(x)(0)
        return scalar(N.npow(v, F(1, 2)) if not v.iszero() else v, "float")
    if ord not in (None, "fro", 2):
        raise Unsupported("norm order %r" % (ord,))
    if ord == 2 and axis is None and x.ndim != 1:
        raise Unsupported("spectral norm")
    if ord == 2 and isinstance(axis, (tuple, list)):
        raise Unsupported("spectral norm")
    if ord == "fro" and (x.ndim != 2 and axis is None):
        raise ValueError("Improper number of dimensions to norm.")
    s = sum(ew1(lambda a: mul(a, N.conj(a)), x, lambda k: "float"), axis=axis, keepdims=keepdims)
    return ew1(lambda a: N.npow(a, F(1, 2)) if not a.iszero() else a, s, lambda k: "float")


def qr(a, mode="reduced"):
    """Q unitary, R opaque: every unitary matrix is the eigenvector matrix of some Hermitian matrix"""
    a = asarr(a)
    _square(a)
    nb = a.ndim - 2
    st = _rng()
    st.cnt += 1
    nm = PL.short("qr#%s#%d" % (st.site, st.cnt))
    prm = tuple(st.params)
    n = a.vshape[-1]
    real_ = a.kind != "complex"

    def pre(ix):
        return N.MSym(nm, n, [toP(p) for p in ix[:nb]] + list(prm), "herm", real_)
    Q = build(a.vshape, lambda *ix: N.nfac(N.EV(pre(ix), ix[nb], ix[nb + 1])), _fk(a.kind))
    R = matmul(conjugate(swapaxes(Q, -1, -2)), a)
    return Q, R


def matrix_power(a, n):
    raise Unsupported("matrix_power")


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = dot(r, x)
    return r


def matrix_rank(a, **k):
    a = asarr(a)
    if _pdobj(a):
        return a.shape[-1]
    raise Unsupported("matrix_rank")


linalg = _Mod("numpy.linalg", svd=svd, LinAlgError=LinAlgError, inv=inv, solve=solve, det=det, slogdet=slogdet, eigh=eigh, eigvalsh=eigvalsh, cholesky=cholesky,
              norm=norm, qr=qr, multi_dot=multi_dot, matrix_rank=matrix_rank, matrix_power=matrix_power)


# ------------------------------------------------------------------ random
class RngState:
    """deterministic generator model: the state is a term; every draw advances it"""

    def __init__(self, term="s0"):
        self.term = term
        self.params = ()      # indices of the enclosing loop iterations
        self.site, self.cnt = "", 0

    def state(self):
        return (self.term, self.params, self.site, self.cnt)

    def set(self, st):
        self.term, self.params, self.site, self.cnt = st

    def draw(self, dist, params, shape, kind="float", pos=False):
        nm = "draw(%s;%s)" % (self.term, dist)
        ps = []
        for p in params:
            ps.append(nfof(p) if not isinstance(p, Arr) else p.body())
        sh = [] if shape is None else shape_of(shape)
        self.term = "adv(%s;%s;%s;%s)" % (self.term, dist, ",".join(p.key for p in ps), ",".join(s.key for s in sh))
        self.term = PL.short(self.term)
        RT.draws.append((nm, dist, ps, sh))
        nm = PL.short(nm)
        if shape is None:
            return scalar(N.nfac(N.At(nm, (), False, True, pos, self.params)), kind)
        return build(sh, lambda *ix: N.nfac(N.At(nm, ix, False, True, pos, self.params)), kind)


def _rng():
    r = getattr(RT, "rng", None)
    if r is None:
        r = RT.rng = RngState()
    return r


class RandomState:
    def __init__(self, seed=None):
        if seed is None:
            RT.ndraw += 1
        self._s = RngState("seed(%s)" % ("os-entropy#%d" % RT.ndraw if seed is None else nfof(seed).key))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = _rand_fns.get(n)
        if f is None:
            raise Unsupported("RandomState.%s" % n)
        return lambda *a, **k: f(self._s, *a, **k)


Generator = RandomState


class _StPart:
    """opaque component of the generator state (key vector, position, cached normal)"""

    def __init__(self, st, part):
        self.st, self.part = st, part


def _r_get_state(s, legacy=True):
    st = s.state()
    parts = [_StPart(st, k) for k in range(4)]
    if legacy:
        return ("MT19937",) + tuple(parts)
    return {"bit_generator": "MT19937", "state": {"key": parts[0], "pos": parts[1]}, "has_gauss": parts[2], "gauss": parts[3]}


def _r_set_state(s, tok):
    if isinstance(tok, dict):
        try:
            tok = (tok["bit_generator"], tok["state"]["key"], tok["state"]["pos"], tok["has_gauss"], tok["gauss"])
        except (KeyError, TypeError):
            raise Unsupported("set_state of a value not from get_state")
    if not isinstance(tok, (tuple, list)) or len(tok) not in (3, 5) or tok[0] != "MT19937":
        raise Unsupported("set_state of a value not from get_state")
    ps = tok[1:]
    for k, p in enumerate(ps):
        if not (isinstance(p, _StPart) and p.part == k and p.st == ps[0].st):
            raise Unsupported("set_state of a value not from get_state")
    t = ps[0].st
    if len(ps) == 2:
        # the cached second half of the last normal pair is dropped
        t = ("uncached(%s)" % t[0],) + t[1:]
    s.set(t)


def _r_seed(s, seed=None):
    if seed is None:
        RT.ndraw += 1
        s.term, s.params = "os-entropy#%d" % RT.ndraw, ()
        return
    if isinstance(seed, SB):
        raise Unsupported("seed")
    s.term, s.params = "seed(%s)" % nfof(seed).key, ()


def _r_randn(s, *sh):
    return s.draw("normal01", [], sh if sh else None)


def _r_standard_normal(s, size=None):
    return s.draw("normal01", [], size)


def _r_normal(s, loc=0.0, scale=1.0, size=None):
    return loc + scale * s.draw("normal01", [], size)


def _r_rand(s, *sh):
    return s.draw("uniform01", [], sh if sh else None, pos=True)


def _r_random(s, size=None):
    return s.draw("uniform01", [], size, pos=True)


def _r_uniform(s, low=0.0, high=1.0, size=None):
    if low == 0.0 and high == 1.0:
        return s.draw("uniform01", [], size, pos=True)
    # contract: values in [low, high)
    lo, hi = nfof(low), nfof(high)
    pos = (lo.const() is not None and lo.const()[0] > 0) or N.ispos(lo)
    return s.draw("uniform", [low, high], size, pos=bool(pos))


def _r_gamma(s, shape, scale=1.0, size=None):
    return s.draw("gamma", [shape, scale], size, pos=True)


def _r_standard_gamma(s, shape, size=None):
    return s.draw("gamma", [shape, 1.0], size, pos=True)


def _r_chisquare(s, df, size=None):
    return s.draw("chisquare", [df], size, pos=True)


def _r_lognormal(s, mean=0.0, sigma=1.0, size=None):
    return s.draw("lognormal", [mean, sigma], size, pos=True)


def _r_exponential(s, scale=1.0, size=None):
    return s.draw("exponential", [scale], size, pos=True)


def _r_choice(s, a, size=None, replace=True, p=None):
    """a concrete list, one value: every outcome is explored"""
    sh = [] if size is None else shape_of(size)
    xs = list(a) if isinstance(a, (list, tuple)) else None
    if p is not None or xs is None or not builtins_all(q.const() == 1 for q in sh):
        raise Unsupported("random.choice")
    s.term = PL.short("adv(%s;choice%d)" % (s.term, len(xs)))
    x = xs[RT.choose(len(xs), "choice")]
    return x if size is None else build(sh, lambda *ix: nfof(x), rt.kind_of(x))


_rand_fns = {k[3:]: v for k, v in list(globals().items()) if k.startswith("_r_")}
_rand_fns["random_sample"] = _r_random
_rand_fns["sample"] = _r_random


def _mkrand(n, f):
    def g(*a, **k):
        return f(_rng(), *a, **k)
    g.__name__ = n
    return g


def default_rng(seed=None):
    return RandomState(seed)


random = _Mod("numpy.random", RandomState=RandomState, Generator=Generator, default_rng=default_rng, **{n: _mkrand(n, f) for n, f in _rand_fns.items()})


# ------------------------------------------------------------------ keyword options
# options without influence on the value; everything else a contract does not name is outside the subset
_NEUTRAL = {"check_finite", "casting", "subok", "order", "lapack_driver", "driver", "optimize", "like", "hermitian", "copy", "equal_nan", "disp"}
_MAKERS = {"zeros", "ones", "full", "empty", "zeros_like", "ones_like", "empty_like", "full_like", "asarray", "array", "eye", "identity", "arange", "asanyarray"}


def strict(f, nargs=None):
    """f with numpy's treatment of out=, dtype= and overwrite_*=: an output array is written, an overwritten operand
    has arbitrary contents afterwards (both are writes to the caller's array if it is one)"""
    import functools
    import inspect
    pars = inspect.signature(f).parameters.values()
    named = {q.name for q in pars if q.kind in (q.POSITIONAL_OR_KEYWORD, q.KEYWORD_ONLY)} - {"out"}
    maker = f.__name__ in _MAKERS
    if not maker:
        named -= {"dtype"}

    @functools.wraps(f)
    def g(*a, **k):
        if not k and (nargs is None or len(a) <= nargs):
            return f(*a)
        over = []
        out = k.pop("out", None)
        if out is None and nargs is not None and len(a) == nargs + 1:
            out, a = a[-1], a[:-1]
        if isinstance(out, tuple):
            out = out[0]
        dt = k.pop("dtype", None) if "dtype" not in named else None
        for o in list(k):
            if o in named:
                continue
            v = k.pop(o)
            if o.startswith("overwrite_"):
                if v:
                    x = a[0 if o in ("overwrite_a", "overwrite_x") else 1]
                    if isinstance(x, Arr):
                        over.append(x)
            elif not (o in _NEUTRAL or (o == "where" and v is True)):
                raise Unsupported("option %s of %s" % (o, f.__name__))
        r = f(*a, **k)
        if dt is not None:
            r = r.astype(dt) if isinstance(r, Arr) else asarr(r).astype(dt).item()
        for x in over:
            x[...] = empty(x.shape, x.dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _strictify():
    import inspect
    unary = "absolute abs sqrt exp log conj conjugate sign square negative positive log1p expm1 reciprocal log2 log10 floor ceil isnan isfinite isinf".split()
    binary = "add subtract multiply divide true_divide maximum minimum power matmul greater less equal greater_equal less_equal not_equal dot float_power".split()
    G = globals()

    def wrap(n, f):
        if type(f).__name__ != "function" or n.startswith("_") or getattr(f, "__module__", None) != __name__ or n in ("strict", "errstate", "seterr", "gram_eigs", "nsum_of"):
            return f
        ps = inspect.signature(f).parameters.values()
        if n in unary or n in binary:
            return strict(f, 1 if n in unary else 2)
        if _b.any(q.kind == q.VAR_KEYWORD or q.name == "out" for q in ps) or f in _la:
            return strict(f)
        return f
    _la = [v for k, v in linalg.__dict__.items() if type(v).__name__ == "function"]
    new_ = {n: wrap(n, f) for n, f in G.items()}
    G.update(new_)
    for n, f in list(linalg.__dict__.items()):
        if type(f).__name__ == "function":
            setattr(linalg, n, G.get(n, f) if getattr(G.get(n), "__wrapped__", None) is f else strict(f))


_strictify()
