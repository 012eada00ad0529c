"""Contract vocabulary: symbolic inputs, expected values, scenario registry and the proof driver."""
import sys
import time
import traceback
from fractions import Fraction as F
import z3
from . import poly as PL
from . import nf as N
from . import rt, ten
from . import npshim as np
from .nf import const, fromP, mul, nsum, conj, npow
from .poly import Dim, IV, toP, fresh, same
from .rt import RT, Sc, SB, Unsupported, StopPath, mk, sint, nfof
from .ten import Arr, build, SymSeq

half = const(F(1, 2))
I = const(1j)


class Check:
    def __init__(self, cid):
        self.cid = cid
        self.scen = []

    def scenario(self, name, **kw):
        def deco(f):
            self.scen.append((name, f, kw))
            return f
        return deco


CHECKS = {}


def check(cid):
    if cid not in CHECKS:
        CHECKS[cid] = Check(cid)
    return CHECKS[cid]


# ------------------------------------------------------------------ symbolic inputs
_dims = {}      # name -> least value, within one scenario: results cached under a name are for one least value only


def dim(name, min=1, max=None):
    if _dims.setdefault(name, min) != min:
        raise ValueError("dimension %s declared with two least values" % name)
    return sint(toP(Dim(name, min)))


def P_(x):
    p = rt.as_poly(x)
    if p is None:
        raise TypeError("dimension")
    return p


def freeze(a, name):
    a.cell.frozen = name
    return a


def sym(name, shape, kind="float", pos=False, frozen=True):
    """arbitrary array"""
    shape = [P_(s) for s in shape]
    a = build(shape, lambda *ix: N.nfac(N.At(name, ix, False, kind != "complex", pos)), kind)
    if frozen:
        a.cell.frozen = name
    return a


def atom(name, *ix, real=True, pos=False):
    return N.nfac(N.At(name, [P_(i) for i in ix], False, real, pos))


def msym(name, n, kind="hpd", real=False, params=()):
    return N.MSym(name, P_(n), tuple(params), kind, real)


def mat(M, real=None, frozen=True, batch=None):
    """array holding the matrix symbol M (or, for batch=k, the family M{i})"""
    k = "float" if M.isreal else "complex"
    if batch is None:
        a = build([M.size, M.size], lambda i, j: M.at(i, j), k)
    else:
        a = build([P_(batch), M.size, M.size], lambda b, i, j: N.MSym(M.name, M.size, (b,), M.kind, M.isreal).at(i, j), k)
    if frozen:
        a.cell.frozen = M.name
    return a


def hpd(name, n, real=False, batch=None, frozen=True):
    return mat(msym(name, n, "hpd", real), frozen=frozen, batch=batch)


def herm(name, n, real=False, batch=None, frozen=True):
    return mat(msym(name, n, "herm", real), frozen=frozen, batch=batch)


def scal(name, pos=False, kind="float", np=False, real=True):
    return Sc(N.nfac(N.At(name, (), False, real, pos)), kind, np)


def pint(name, min=0):
    """symbolic python integer (a dimension-like parameter)"""
    return sint(toP(Dim(name, min)))


# ------------------------------------------------------------------ matrix algebra on specs
def Mat(fn, n):
    """matrix object from an entry function"""
    r, c = fresh(P_(n), "i"), fresh(P_(n), "i")
    return N.mat_from(fn(toP(r), toP(c)), r, c, P_(n))


def fun(g, M):
    return lambda i, j: N.mk_sp(g, M, i, j)


def inv(M):
    if isinstance(M, Arr):
        A = M
        M = Mat(lambda i, j: A.at([i, j]), A.vshape[0])
    return fun(npow(N.LAM, -1), M)


def powm(M, e):
    return fun(npow(N.LAM, e), M)


def S(n, f):
    """sum_{i<n} f(i)"""
    t = fresh(P_(n), "t")
    return nsum(f(toP(t)), t)


def mm(n, *fs):
    """product of n x n entry functions"""
    def two(f, g):
        return lambda i, j: S(n, lambda t: mul(f(i, t), g(t, j)))
    r = fs[0]
    for g in fs[1:]:
        r = two(r, g)
    return r


def H(f):
    return lambda i, j: conj(f(j, i))


def delta(i, j):
    return N.delta(P_(i), P_(j))


def arg(a):
    """an argument of an opaque function"""
    if isinstance(a, Arr):
        ix = a.formals()
        return N.ALam(a.vshape, ix, a.at([toP(v) for v in ix]))
    if isinstance(a, (N.NF, N.ALam)):
        return a
    return nfof(a)


def opaque(name, args, shape, kind="float", pos=False):
    """result of an unknown function of the given arguments (same arguments, same result)"""
    ps = tuple(arg(a) for a in args)
    sh = [P_(s) for s in shape]
    return build(sh, lambda *ix: N.nfac(N.At(name, ix, False, kind != "complex", pos, ps)), kind)


def lam(shape, fn):
    """argument of an opaque function given by its entries"""
    ix = [fresh(P_(s), "q") for s in shape]
    return N.ALam([P_(s) for s in shape], ix, fn(*[toP(v) for v in ix]))


# ------------------------------------------------------------------ obligations
def shape_eq(name, got, shape):
    shape = [P_(s) for s in shape]
    if not isinstance(got, Arr):
        if isinstance(got, (Sc,)) or rt.isnum(got):
            return RT.oblige(name + ": shape", not shape, "got a scalar")
        return RT.oblige(name + ": array result", False, "got %r" % type(got))
    ok = len(got.vshape) == len(shape) and all(same(a, b) for a, b in zip(got.vshape, shape))
    return RT.oblige(name + ": shape", ok, "got (%s), want (%s)" % (",".join(s.key for s in got.vshape), ",".join(s.key for s in shape)))


def eq(name, got, shape, fn=None, kind=None):
    """postcondition: got is the array of the given shape with entries fn(*idx)"""
    if isinstance(shape, Arr):
        w = shape
        shape, fn, kind = list(w.vshape), (lambda *ix: w.at(list(ix))), kind or w.kind
    if isinstance(fn, Arr):
        ref = fn
        fn = lambda *ix: ref.at(list(ix))
    if isinstance(shape, (Sc,)) or rt.isnum(shape):
        w = nfof(shape)
        shape, fn = [], lambda: w
    if isinstance(got, SymSeq):
        got = got.stack()
    if isinstance(got, (list, tuple)):
        got = ten.asarr(got)
    if not isinstance(got, (Arr, Sc)) and not (rt.isnum(got) or isinstance(got, (bool, SB))):
        return RT.oblige(name + ": numeric result", False, "got %r" % (type(got),))
    if not isinstance(got, Arr):
        if shape:
            return RT.oblige(name + ": shape", False, "got a scalar")
        if rt.isinf(got):
            return RT.oblige(name, False, "got inf")
        return RT.oblige_eq(name, nfof(got), fn())
    if not shape_eq(name, got, shape):
        return False
    if kind:
        if not RT.oblige(name + ": dtype", got.kind == kind, "got %s, want %s" % (got.kind, kind)):
            return False
    ix = [fresh(s, "q") for s in got.vshape]
    pix = [toP(0) if same(s, 1) else toP(v) for v, s in zip(ix, got.vshape)]
    return RT.oblige_eq(name, got.at(pix), fn(*pix))


def is_same(name, a, b):
    return RT.oblige(name + ": same object", a is b, "got another object")


def true(name, b, detail=""):
    if isinstance(b, Arr):
        b = b.item()
    return RT.oblige_sb(name, b, detail)


def raises(name, excs, f):
    try:
        r = f()
    except excs:
        return RT.oblige(name, True)
    except Exception as e:
        return RT.oblige(name, False, "raised %s: %s" % (type(e).__name__, e))
    return RT.oblige(name, False, "returned normally")


def logs():
    return [e for e in RT.events if e[0] == "log"]


# ------------------------------------------------------------------ driver
class Result:
    pass


def run_scenario(ch, name, fn, kw):
    RT.scenario = name
    _dims.clear()
    for c in (PL._ge_cache, N._ren_memo, N._mul_memo, N._sp_memo, N._plain_memo, N._sig_memo):
        c.clear()
    done = [0]
    n0 = len(RT.obl)

    def go():
        k = len(RT.obl)
        try:
            fn()
        except (StopPath, rt.Restart, Unsupported, N.NFLimit, KeyboardInterrupt):
            raise
        except Exception as e:
            if isinstance(e, (RecursionError, MemoryError)):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            loc = [t for t in tb if "/robuststats/" in t.filename]
            where = "%s:%d" % (loc[-1].filename, loc[-1].lineno) if loc else "%s:%d" % (tb[-1].filename, tb[-1].lineno)
            if isinstance(e, (NotImplementedError,)) and not loc:
                raise
            RT.oblige("no exception", False, "%s: %s at %s" % (type(e).__name__, e, where), "exec")
        done[0] += 1
    err = None
    try:
        RT.explore(go, maxpaths=kw.get("maxpaths", 300))
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [t for t in tb if "/robuststats/" in t.filename]
        where = " at %s:%d" % (loc[-1].filename, loc[-1].lineno) if loc else ""
        err = "outside the verified subset: %s%s" % (e, where)
    except N.NFLimit as e:
        err = "normal form limit: %s" % e
    except RecursionError as e:
        err = "recursion limit"
    if err:
        RT.oblige("within the verified subset", False, err, "subset")
    elif done[0] == 0:
        RT.oblige("reachable (non-vacuous)", False, "no path of the scenario completes", "vacuity")
    elif len(RT.obl) == n0:
        RT.oblige("has obligations (non-vacuous)", False, "no obligation generated", "vacuity")


def run_check(ch, only=None, verbose=False):
    RT.reset_all()
    t0 = time.time()
    per = []
    for name, fn, kw in ch.scen:
        if only and only not in name:
            continue
        t = time.time()
        n0 = len(RT.obl)
        try:
            run_scenario(ch, name, fn, kw)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            if verbose:
                traceback.print_exc(limit=-12)
            tb = traceback.extract_tb(e.__traceback__)
            RT.oblige("engine", False, "%s: %s at %s" % (type(e).__name__, e, ["%s:%d" % (x.filename, x.lineno) for x in tb[-4:]]), "engine")
        bad = [o for o in RT.obl[n0:] if not o["ok"]]
        per.append((name, len(RT.obl) - n0, len(bad), time.time() - t))
        if verbose:
            print("%-60s %3d obligations %2d failed  %.2fs" % (name, len(RT.obl) - n0, len(bad), time.time() - t))
            for b in bad[:6]:
                print("     FAILED %s [%s]: %s" % (b["name"], b["backend"], b["detail"][:1500]))
                if b["facts"]:
                    print("        under:", b["facts"][:6])
            sys.stdout.flush()
    return per


def normalisers_positive(a):
    """assumption recorded by the caller: the normalising sums of random draws dividing a are not zero (almost surely true)"""
    for T in a.body().t:
        for f, e in T.facs:
            if isinstance(f, N.Base) and not isinstance(e, N.NF) and e < 0:
                PL.CTX.add_pos(f.nf)
                PL.CTX.add_pos(N.npow(f.nf, half))


def lemma_pd(name, fn, n, parts, over=None):
    """ghost lemma: the Hermitian matrix with entries fn is positive definite, shown by writing it as
    sum_k c_k B_k^H P_k B_k with c_k > 0 rational, P_k positive definite and some B_k the identity.
    The decomposition is an obligation; positivity of such a sum is the trusted algebra fact used.
    over: a batch size; fn and parts are then functions of the batch index"""
    b = IV("!0", P_(over)) if over is not None else None
    f = fn(toP(b)) if b is not None else fn
    ps = parts(toP(b)) if b is not None else parts
    acc = None
    strict = False
    for c, Pm, B in ps:
        if not (F(c) > 0 and Pm.pd):
            raise ValueError("lemma_pd")
        P = fun(N.LAM, Pm)
        e = P if B is None else mm(n, H(B), P, B)
        strict = strict or B is None
        t = (lambda e, c: lambda i, j: N.mul(const(F(c)), e(i, j)))(e, c)
        acc = t if acc is None else (lambda a, t: lambda i, j: a(i, j) + t(i, j))(acc, t)
    i, j = fresh(P_(n), "i"), fresh(P_(n), "i")
    if RT.oblige_eq(name + ": decomposition into positive parts", f(toP(i), toP(j)), acc(toP(i), toP(j))) and strict:
        M = Mat(f, n)
        z, w = fresh(P_(n)), fresh(P_(n))
        q = N.mul(M.at(toP(z), toP(w)), N.mul(N.nfac(N.At("?z", (toP(z),), True)), N.nfac(N.At("?z", (toP(w),)))))
        PL.CTX.add_pos(nsum(nsum(q, z), w))
