"""Contracts of the third-party libraries the code under proof calls.

Three kinds of entries:
  * namespaces of assumed contracts written here (the trusted part: what the library promises),
  * REAL: installed third-party source that is executed symbolically like the code under proof,
  * STDLIB: pure python standard modules used as they are.
"""
import collections
import contextlib
import copy as _copy
import functools
import inspect
import types
import builtins as _b
from fractions import Fraction as F
from . import poly as PL
from . import nf as N
from . import rt, ten
from . import npshim as np
from .rt import RT, Sc, SB, Unsupported, mk, nfof
from .ten import Arr, asarr, build, scalar, SymSeq
from .poly import toP, fresh
from .nf import const, fromP

SITE = "/opt/venv/lib/python3.12/site-packages/"
REAL = {
    "pymanopt.tools.multi": "pymanopt/tools/multi.py",
    "pymanopt.manifolds.manifold": "pymanopt/manifolds/manifold.py",
    "pymanopt.manifolds.product": "pymanopt/manifolds/product.py",
    "sklearn.covariance._empirical_covariance": "sklearn/covariance/_empirical_covariance.py",
    "sklearn.covariance._empirical": "sklearn/covariance/_empirical_covariance.py",
}
STDLIB = {"abc", "functools", "contextlib", "collections", "itertools", "numbers", "typing", "math_", "os", "sys", "types", "inspect", "enum", "dataclasses", "operator", "time", "re", "string", "collections.abc"}

_Mod = np._Mod


class Ns(types.ModuleType):
    def __init__(self, name, **k):
        super().__init__(name)
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s has no contract" % (self.__name__, n))


# ------------------------------------------------------------------ logging / warnings / progress bars
class _Logger:
    level = 30
    name = "x"

    def _n(self, *a, **k):
        return None
    debug = info = warning = warn = error = critical = exception = log = setLevel = addHandler = _n

    def isEnabledFor(self, *a):
        return False

    def getEffectiveLevel(self):
        return 30


def _logmod():
    L = _Logger()

    def ev(level):
        def f(msg=None, *a, **k):
            RT.events.append(("log", level, str(msg)))
        return f
    return Ns("logging", getLogger=lambda *a: L, Logger=_Logger, LoggerAdapter=_Logger, DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50,
              basicConfig=lambda *a, **k: None, disable=lambda *a, **k: None, NullHandler=_Logger, StreamHandler=_Logger,
              debug=ev("debug"), info=ev("info"), warning=ev("warning"), warn=ev("warning"), error=ev("error"), critical=ev("critical"), exception=ev("error"))


def _warnmod():
    def warn(msg=None, *a, **k):
        RT.events.append(("warn", str(msg)))

    @contextlib.contextmanager
    def catch_warnings(*a, **k):
        yield []
    return Ns("warnings", warn=warn, catch_warnings=catch_warnings, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)


class Tqdm:
    """progress bar contract: iterates exactly its iterable; update / close / setters have no effect on values"""

    def __init__(self, iterable=None, *a, **k):
        self.rsv_iter = iterable
        self.n = 0
        self.total = k.get("total")

    def __iter__(self):
        return iter(self.rsv_iter)

    def __len__(self):
        return len(self.rsv_iter)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _n(self, *a, **k):
        return None
    update = close = set_description = set_postfix = refresh = display = write = reset = set_description_str = set_postfix_str = _n


# ------------------------------------------------------------------ joblib
def delayed(f):
    def d(*a, **k):
        return (f, a, k)
    return d


class Parallel:
    """contract: results in task order; n_jobs == 1 runs the calls in order in this process on the very arguments,
    otherwise every call runs on copies of its arguments (worker processes)"""

    def __init__(self, n_jobs=1, *a, **k):
        self.n_jobs = n_jobs

    def __call__(self, tasks):
        from .loader import symseq
        par = not (self.n_jobs is None or bool(self.n_jobs == 1))
        s = symseq(tasks)

        def run(t):
            f, a, k = t
            if par:
                f, a, k = _copy.deepcopy((_unbind(f), a, k))
            return f(*a, **k)
        if s is None:
            return [run(t) for t in tasks]
        if par or _independent(s, run):
            return SymSeq(s.n, lambda i: run(s.elem(i)))
        return _SEQ()(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _unbind(f):
    return f


class _Watch:
    """records in-place writes to arrays that existed before"""
    lid = "<watch>"

    def __init__(self):
        self.cell0 = ten._cell_n[0]
        self.wrote = []
        self.lfacts = []

    def note_write(self, cell):
        if cell.id <= self.cell0:
            self.wrote.append((cell, cell.body))


def _independent(s, run):
    """does the call for an arbitrary task leave everything that existed before it as it was? (then calls made one after
    the other in this process are independent of each other)"""
    from . import loops
    t = s.elem(toP(PL.fresh(s.n, "task")))
    objs = loops.reach([t[0], t[1], t[2]] + loops.closure(t[0]), depth=12)
    todo = [[]]
    for _ in range(12):
        if not todo:
            return True
        if not _clean_run(t, run, objs, todo):
            return False
    return False


def _clean_run(t, run, objs, todo):
    from . import loops, npshim
    w = _Watch()
    snap = {k: loops.snap_obj(o) for k, o in objs.items()}
    rng = npshim._rng().state()
    base, nf0 = PL.CTX.clone(), len(RT.facts)
    ev = (len(RT.events), len(RT.draws), len(RT.exits), len(RT.obl))
    L = loops.Local(todo.pop(), loops._EVERY, w)
    RT.locs.append(L)
    RT.loopstack.append(w)
    clean = True
    try:
        run(t)
    except (rt.Restart, KeyboardInterrupt):
        raise
    except (Exception, rt.StopPath):
        clean = False
    finally:
        while RT.locs and RT.locs[-1] is not L:
            RT.locs.pop()
        if RT.locs:
            RT.locs.pop()
        while RT.loopstack and RT.loopstack[-1] is not w:
            RT.loopstack.pop()
        if RT.loopstack:
            RT.loopstack.pop()
    if w.wrote or npshim._rng().state() != rng:
        clean = False
    for k, o in objs.items():
        new, old = loops.snap_obj(o), snap[k]
        if isinstance(old, list):
            clean = clean and len(old) == len(new) and all(a is b for a, b in zip(old, new))
        else:
            clean = clean and set(old) == set(new) and all(old[q] is new[q] for q in old)
    for cell, body in reversed(w.wrote):
        cell.body = body
    for k, o in objs.items():
        loops.restore_obj(o, snap[k])
    RT.rng.set(rng)
    del RT.events[ev[0]:], RT.draws[ev[1]:], RT.exits[ev[2]:], RT.obl[ev[3]:]
    del RT.facts[nf0:]
    PL.set_ctx(base)
    PL.CTX.bump()
    todo.extend(L.pending)
    return clean



_seq_cache = {}


def _SEQ():
    """sequential execution over a symbolic number of tasks, as an instrumented loop"""
    L = CURRENT[0]
    if L not in _seq_cache:
        src = "def seq(tasks):\n    out = []\n    for t in tasks:\n        f, a, k = t\n        out.append(f(*a, **k))\n    return out\n"
        ns = {"__builtins__": L.builtins}
        exec(L.compile(src, "<joblib>", "joblib"), ns)
        _seq_cache[L] = ns["seq"]
    return _seq_cache[L]


CURRENT = [None]


# ------------------------------------------------------------------ sklearn
def _deprecate_positional_args(func=None, *, version="1.3"):
    def deco(f):
        sig = inspect.signature(f)
        pos = [n for n, p in sig.parameters.items() if p.kind == p.POSITIONAL_OR_KEYWORD]

        @functools.wraps(f)
        def inner(*args, **kw):
            if len(args) <= len(pos):
                return f(*args, **kw)
            RT.events.append(("warn", "positional"))
            kw.update(zip(sig.parameters, args))
            return f(**kw)
        return inner
    return deco(func) if func is not None else deco


def check_array(array, *, accept_sparse=False, accept_large_sparse=True, dtype="numeric", order=None, copy=False, force_all_finite=True, ensure_2d=True, allow_nd=False,
                ensure_min_samples=1, ensure_min_features=1, estimator=None, input_name=""):
    """contract (sklearn 1.4.2): returns the array itself (no copy) when it is already a numeric ndarray"""
    a = array
    if not isinstance(a, Arr):
        if isinstance(a, (Sc, SB, int, float)):
            a = asarr(a)
        elif isinstance(a, (list, tuple, SymSeq)):
            a = asarr(a)
        else:
            raise Unsupported("check_array of %r" % type(a))
    if a.kind == "complex":
        raise ValueError("Complex data not supported")
    if ensure_2d and a.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % a.ndim)
    if not allow_nd and a.ndim >= 3:
        raise ValueError("Found array with dim %d. expected <= 2." % a.ndim)
    if a.kind == "bool":
        a = a.astype("float")
    if ensure_min_samples:
        if bool(rt.sint(a.vshape[0]) < ensure_min_samples):
            raise ValueError("Found array with too few samples")
    if ensure_min_features and a.ndim == 2:
        if bool(rt.sint(a.vshape[1]) < ensure_min_features):
            raise ValueError("Found array with too few features")
    if copy:
        a = a.copy()
    if dtype not in ("numeric", None):
        a = np.asarray(a, dtype=dtype)
    return a


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
        if init is object.__init__:
            return []
        sig = inspect.signature(init)
        ps = [p for p in sig.parameters.values() if p.name != "self" and p.kind != p.VAR_KEYWORD]
        for p in ps:
            if p.kind == p.VAR_POSITIONAL:
                raise RuntimeError("varargs in estimator constructor")
        return sorted(p.name for p in ps)

    def get_params(self, deep=True):
        out = {}
        for k in self._get_param_names():
            v = getattr(self, k)
            if deep and hasattr(v, "get_params") and not isinstance(v, type):
                for kk, vv in v.get_params().items():
                    out[k + "__" + kk] = vv
            out[k] = v
        return out

    def set_params(self, **params):
        names = self._get_param_names()
        for k, v in params.items():
            k0, _, sub = k.partition("__")
            if k0 not in names:
                raise ValueError("Invalid parameter %r" % k0)
            if sub:
                getattr(self, k0).set_params(**{sub: v})
            else:
                setattr(self, k0, v)
        return self

    def _check_n_features(self, X, reset):
        n = X.shape[1]
        if reset:
            self.n_features_in_ = n
            return
        if not hasattr(self, "n_features_in_"):
            return
        if bool(n != self.n_features_in_):
            raise ValueError("X has a different number of features than the estimator was fitted with")

    def _validate_data(self, X="no_validation", y="no_validation", reset=True, validate_separately=False, cast_to_ndarray=True, **check_params):
        if y is None or isinstance(y, str):
            X = check_array(X, **check_params)
        else:
            raise Unsupported("_validate_data with y")
        if check_params.get("ensure_2d", True):
            self._check_n_features(X, reset)
        return X

    def _validate_params(self):
        pass

    def __repr__(self):
        return type(self).__name__ + "()"


class TransformerMixin:
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


def _ident_deco(*a, **k):
    return lambda f: f


def fast_logdet(A):
    sign, ld = np.slogdet(A)
    if not bool(sign > 0):
        return -float("inf")
    return ld


def pairwise_distances(X, Y=None, metric="euclidean", **k):
    if metric != "mahalanobis" or set(k) != {"VI"}:
        raise Unsupported("pairwise_distances")
    X, Y, VI = asarr(X), asarr(Y), asarr(k["VI"])
    if "complex" in (X.kind, Y.kind):
        raise ValueError("Complex data not supported")
    d = X[:, None, :] - Y[None, :, :]
    return np.sqrt(np.einsum("ijk,kl,ijl->ij", d, VI, d))


@contextlib.contextmanager
def config_context(**k):
    yield


# ------------------------------------------------------------------ scipy
def s_sqrtm(A):
    """principal square root; exact spectral function for Hermitian positive-definite argument"""
    return np._specfun(N.npow(N.LAM, F(1, 2)))(A)


def s_pinvh(a):
    return np._specfun(N.npow(N.LAM, -1))(a)


def s_toeplitz(c, r=None):
    c = np.ravel(c)
    n = c.vshape[0]
    if r is None:
        rr = c.conj()
        m = n
    else:
        rr = np.ravel(r)
        m = rr.vshape[0]

    def fn(i, j):
        ge = N.mk_iv("ge", i - j)
        lt = N.mk_iv("ge", j - i - 1)
        return N.mul(ge, c.at([i - j])) + N.mul(lt, rr.at([j - i]))
    k = rt.join(c.kind, rr.kind)
    return build([n, m], fn, k)


def s_expm(A):
    return np._specfun(N.mk_exp(N.LAM))(A)


def s_logm(A):
    return np._specfun(N.mk_log(N.LAM))(A)


def s_eigh(a, b=None, lower=True, eigvals_only=False):
    if b is not None:
        raise Unsupported("generalized eigh")
    if eigvals_only:
        return np.eigvalsh(a)
    return tuple(np.eigh(a))


def s_cholesky(a, lower=False, **k):
    c = np.cholesky(a)
    return c if lower else np.conjugate(np.swapaxes(c, -1, -2))


def _m2(f):
    """scipy.linalg of this version: two-dimensional operands only"""
    g = np.strict(f) if not hasattr(f, "__wrapped__") else f

    def h(a, *x, **k):
        if ten.asarr(a).ndim != 2:
            raise ValueError("expected square matrix")
        return g(a, *x, **k)
    h.__name__ = f.__name__
    return h


def _special(nm):
    def f(*a):
        return np.ew(lambda *x: N.mk_fn(nm, list(x)), *a, kf=np._fl) if _b.any(isinstance(x, Arr) for x in a) else mk(N.mk_fn(nm, [nfof(x) for x in a]), "float")
    return f


class _Chi2:
    def ppf(self, q, df, loc=0, scale=1):
        RT.spec_pos = True
        return mk(N.nfac(N.FnPos("chi2.ppf", [nfof(q), nfof(df)])) if hasattr(N, "FnPos") else N.mk_fn("chi2.ppf", [nfof(q), nfof(df)]), "float")

    def cdf(self, x, df, loc=0, scale=1):
        return mk(N.mk_fn("chi2.cdf", [nfof(x), nfof(df)]), "float")

    def __getattr__(self, n):
        raise Unsupported("chi2.%s" % n)


class _Lognorm:
    def rvs(self, s=None, loc=0, scale=1, size=None, random_state=None):
        st = _rs(random_state)
        return loc + scale * st.draw("lognorm", [s], size, pos=True)

    def __getattr__(self, n):
        raise Unsupported("lognorm.%s" % n)


def _rs(random_state):
    if random_state is None:
        return np._rng()
    if isinstance(random_state, np.RandomState):
        return random_state._s
    if isinstance(random_state, (int, Sc)):
        return np.RandomState(random_state)._s
    if isinstance(random_state, np._Mod) and random_state.__name__ == "numpy.random":
        return np._rng()
    raise Unsupported("random_state")


class _UGroup:
    def __init__(self, cplx):
        self.cplx = cplx

    def rvs(self, dim=None, size=1, random_state=None):
        if not bool(size == 1):
            raise Unsupported("several group elements")
        if not bool(dim >= 2):
            raise ValueError("Dimension of rotation must be specified,and must be a scalar greater than 1.")
        st = _rs(random_state)
        nm = nfof(st.draw("haar_u" if self.cplx else "haar_o", [dim], None, "float"))
        H = N.MSym("haar:" + PL.short(nm.key), rt.as_poly(dim), tuple(st.params), "herm", not self.cplx)
        p = rt.as_poly(dim)
        return build([p, p], lambda i, j: N.nfac(N.EV(H, i, j)), "complex" if self.cplx else "float")

    def __getattr__(self, n):
        raise Unsupported("group.%s" % n)


class _LegacyRS:
    """numpy.random.mtrand._rand seen by scipy's frozen / generic distributions: multivariate draws stay atoms"""

    def __init__(self, st=None):
        self.st = st

    def _state(self):
        return self.st if self.st is not None else np._rng()

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        m, C = asarr(mean), asarr(cov)
        st = self._state()
        ps = [m, C]
        sh = () if size is None else tuple(ten.shape_of(size))
        i, j = toP(fresh(C.vshape[0], "a")), toP(fresh(C.vshape[0], "a"))
        Ck = N.mat_key(C) if hasattr(N, "mat_key") else PL.short(_ckey(C))
        mk_ = PL.short(_ckey(m))
        return st.draw("mvn(%s|%s)" % (mk_, Ck), [], list(sh) + [m.vshape[0]])

    def chisquare(self, df, size=None):
        return self._state().draw("chisquare", [df], size, pos=True)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = np._rand_fns.get(n)
        if f is None:
            raise Unsupported("random_state." + n)
        return lambda *a, **k: f(self._state(), *a, **k)

    def __deepcopy__(self, memo):
        return self


def _ckey(a):
    """key of an array value independent of the bound index names"""
    ix = [fresh(v, "c") for v in a.vshape]
    return N.ALam(a.vshape, ix, a.at([toP(v) for v in ix])).key


def check_random_state(seed):
    if seed is None:
        return GLOBAL_RS
    if isinstance(seed, (_LegacyRS,)):
        return seed
    if isinstance(seed, np.RandomState):
        return _LegacyRS(seed._s)
    if isinstance(seed, (int, Sc)):
        return _LegacyRS(np.RandomState(seed)._s)
    if isinstance(seed, np._Mod):
        return GLOBAL_RS
    raise ValueError("cannot be used to seed a numpy.random.RandomState instance")


GLOBAL_RS = _LegacyRS()


class _PSD:
    """contract of scipy's _PSD for a symmetric positive-definite matrix"""

    def __init__(self, M, cond=None, rcond=None, lower=True, check_finite=True, allow_singular=True):
        M = asarr(M)
        if M.kind == "complex":
            pass
        self._M = M
        w, v = np.eigh(M)
        self.U = v * w ** F(-1, 2)
        self.rank = rt.sint(M.vshape[0])
        self.log_pdet = np.slogdet(M)[1]
        self.eps = 0.0
        self._pinv = None

    @property
    def pinv(self):
        return np.inv(self._M)

    def _support_mask(self, x):
        raise Unsupported("singular covariance")


class Covariance:
    pass


class CovViaPSD(Covariance):
    def __init__(self, psd):
        self._LP = psd.U
        self._log_pdet = psd.log_pdet
        self._rank = psd.rank
        self._covariance = psd._M
        self._shape = psd._M.shape
        self._psd = psd
        self._allow_singular = False

    def whiten(self, x):
        return asarr(x) @ self._LP

    @property
    def log_pdet(self):
        return mk(nfof(self._log_pdet), "float")

    @property
    def rank(self):
        return mk(nfof(self._rank), "int")

    @property
    def covariance(self):
        return self._covariance

    @property
    def shape(self):
        return self._shape

    def _support_mask(self, x):
        raise Unsupported("singular covariance")


def _multivariate(L):
    class _Doc:
        def docformat(self, s, d):
            return s
    gl = _special("gammaln")
    psi = _special("psi")
    ns = {"np": np, "numpy": np, "check_random_state": check_random_state, "_PSD": _PSD, "_covariance": Ns("_covariance", Covariance=Covariance, CovViaPSD=CovViaPSD),
          "doccer": _Doc(), "mvn_docdict_params": {}, "mvt_docdict_params": {}, "_LOG_2PI": np.log(2 * np.pi), "gammaln": gl, "psi": psi, "_LOG_2": np.log(2), "_LOG_PI": np.log(np.pi),
          "threading": None, "scipy": None, "__name__": "scipy.stats._multivariate"}
    L.exec_classes(SITE + "scipy/stats/_multivariate.py", {"multi_rv_generic", "multi_rv_frozen", "multivariate_normal_gen", "multivariate_normal_frozen", "multivariate_t_gen",
                                                           "multivariate_t_frozen", "_squeeze_output"}, ns)

    def ncdf(self, x, mean, cov, maxpts=None, abseps=None, releps=None, lower_limit=None):
        x = asarr(x)
        key = PL.short(_ckey(asarr(mean)) + "|" + _ckey(asarr(cov)))
        v = fresh(x.vshape[-1], "c")

        def fn(*ix):
            return N.mk_fn("mvncdf[%s]" % PL.short(key + x.at(list(ix) + [toP(PL.IV("@c", x.vshape[-1]))]).key), [])
        raise Unsupported("cdf")
    ns["multivariate_normal_gen"]._cdf = ncdf

    def tcdf(self, *a, **k):
        raise Unsupported("cdf")
    ns["multivariate_t_gen"]._cdf = tcdf
    ns["multivariate_normal"] = ns["multivariate_normal_gen"]()
    ns["multivariate_t"] = ns["multivariate_t_gen"]()
    m = Ns("scipy.stats._multivariate")
    m.__dict__.update({k: v for k, v in ns.items() if not k.startswith("__")})
    return m


# ------------------------------------------------------------------ pymanopt / autograd
def Callable_(f):
    return f


class Problem:
    def __init__(self, manifold, cost, egrad=None, ehess=None, grad=None, hess=None, arg=None, precon=None, verbosity=2):
        self.manifold, self.cost, self.egrad, self.ehess, self.grad, self.hess, self.arg, self.precon, self.verbosity = manifold, cost, egrad, ehess, grad, hess, arg, precon, verbosity


class Solver:
    def __init__(self, *a, **k):
        self.args, self.kwargs = a, k
        self._logverbosity = k.get("logverbosity", 0)

    def solve(self, problem, x=None, reuselinesearch=False, **k):
        RT.events.append(("solve", self, problem, x, k))
        f = getattr(RT, "on_solve", None)
        if f is None:
            raise Unsupported("solver.solve outside an optimiser contract")
        return f(self, problem, x)


class SteepestDescent(Solver):
    pass


class ConjugateGradient(Solver):
    pass


class TrustRegions(Solver):
    pass


class SymmetricPositiveDefinite:
    def __init__(self, n, k=1):
        self.n, self.k = n, k
        self._n, self._k = n, k


def _autograd():
    def grad(f, argnum=0):
        g = lambda *a, **k: RT.autograd_hook(f, argnum, *a, **k)
        g.rsv_grad_of = (f, argnum)
        return g
    return grad


def _npmod(name):
    return np


def _mixin():
    return type("ndarraySequenceMixin", (), {"__array_priority__": 1000, "__array_ufunc__": None})


def get(nm, L):
    c = L.__dict__.setdefault("_shim_cache", {})
    if nm not in c:
        f = TABLE.get(nm)
        if f is None:
            return None
        CURRENT[0] = L
        c[nm] = f(L)
    return c[nm]


def _ec(L):
    m = L.module("sklearn.covariance._empirical_covariance")
    return Ns("sklearn.covariance", EmpiricalCovariance=m.EmpiricalCovariance, empirical_covariance=m.empirical_covariance, log_likelihood=m.log_likelihood)


def _chi(L):
    return _Chi2()


TABLE = {
    "numpy": lambda L: np,
    "numpy.linalg": lambda L: np.linalg,
    "numpy.random": lambda L: np.random,
    "autograd": lambda L: Ns("autograd", numpy=np, grad=_autograd(), __path__=[]),
    "autograd.numpy": lambda L: np,
    "autograd.numpy.linalg": lambda L: np.linalg,
    "autograd.numpy.random": lambda L: np.random,
    "logging": lambda L: _logmod(),
    "warnings": lambda L: _warnmod(),
    "tqdm": lambda L: Ns("tqdm", tqdm=Tqdm, trange=None),
    "joblib": lambda L: Ns("joblib", Parallel=Parallel, delayed=delayed),
    "copy": lambda L: Ns("copy", deepcopy=_copy.deepcopy, copy=_copy.copy),
    "math": lambda L: Ns("math", sqrt=np.sqrt, log=np.log, exp=np.exp, pi=np.pi, inf=float("inf"), isclose=np.isclose, prod=np.prod),
    "sklearn": lambda L: Ns("sklearn", config_context=config_context),
    "sklearn.base": lambda L: Ns("sklearn.base", BaseEstimator=BaseEstimator, TransformerMixin=TransformerMixin, _fit_context=_ident_deco, clone=_copy.deepcopy),
    "sklearn.utils": lambda L: Ns("sklearn.utils", check_array=check_array),
    "sklearn.utils.validation": lambda L: Ns("sklearn.utils.validation", check_array=check_array, _deprecate_positional_args=_deprecate_positional_args),
    "sklearn.utils._param_validation": lambda L: Ns("pv", validate_params=_ident_deco),
    "sklearn.utils.extmath": lambda L: Ns("extmath", fast_logdet=fast_logdet),
    "sklearn.metrics": lambda L: Ns("sklearn.metrics"),
    "sklearn.metrics.pairwise": lambda L: Ns("pairwise", pairwise_distances=pairwise_distances),
    "sklearn.covariance": _ec,
    "scipy": lambda L: Ns("scipy", linalg=get("scipy.linalg", L), stats=get("scipy.stats", L), special=get("scipy.special", L)),
    "scipy.linalg": lambda L: Ns("scipy.linalg", sqrtm=_m2(s_sqrtm), pinvh=_m2(s_pinvh), toeplitz=s_toeplitz, expm=s_expm, logm=_m2(s_logm), inv=_m2(np.inv), det=np.det, eigh=_m2(s_eigh),
                                 eigvalsh=_m2(np.eigvalsh), svdvals=_m2(np.svdvals), svd=_m2(np.svd), norm=np.norm, solve=_m2(np.solve), cholesky=_m2(s_cholesky), LinAlgError=np.LinAlgError),
    "scipy.special": lambda L: Ns("scipy.special", gammaln=_special("gammaln"), psi=_special("psi"), digamma=_special("psi")),
    "scipy.stats": lambda L: Ns("scipy.stats", chi2=_Chi2(), lognorm=_Lognorm(), ortho_group=_UGroup(False), unitary_group=_UGroup(True),
                                multivariate_normal=get("scipy.stats._multivariate", L).multivariate_normal, multivariate_t=get("scipy.stats._multivariate", L).multivariate_t,
                                _multivariate=get("scipy.stats._multivariate", L)),
    "scipy.stats._multivariate": _multivariate,
    "pymanopt": lambda L: Ns("pymanopt", Problem=Problem, manifolds=get("pymanopt.manifolds", L)),
    "pymanopt.function": lambda L: Ns("pymanopt.function", Callable=Callable_, Autograd=Callable_),
    "pymanopt.solvers": lambda L: Ns("pymanopt.solvers", SteepestDescent=SteepestDescent, ConjugateGradient=ConjugateGradient, TrustRegions=TrustRegions),
    "pymanopt.tools": lambda L: Ns("pymanopt.tools", ndarraySequenceMixin=_mixin()),
    "pymanopt.manifolds": lambda L: Ns("pymanopt.manifolds", Product=L.module("pymanopt.manifolds.product").Product, SymmetricPositiveDefinite=SymmetricPositiveDefinite),
    "pymanopt.manifolds.psd": lambda L: Ns("pymanopt.manifolds.psd", SymmetricPositiveDefinite=SymmetricPositiveDefinite),
}
