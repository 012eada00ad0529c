from rsv.spec import *
import numbers


class Opaque:
    """a value of which only its truth under comparison is known"""

    def __init__(self, name):
        self.name = name

    def __gt__(self, o):
        return rt.sb_tok("%s>%r" % (self.name, o))

    def __ge__(self, o):
        return rt.sb_tok("%s>=%r" % (self.name, o))

    def __lt__(self, o):
        return rt.sb_tok("%s<%r" % (self.name, o))

    def __le__(self, o):
        return rt.sb_tok("%s<=%r" % (self.name, o))


def outcome(f, exc):
    try:
        r = f()
    except exc:
        return True
    RT.oblige("returns None when accepted", r is None, "%r" % (r,))
    return False


def register(L):
    C = check("C29")
    m = L.module("robuststats.utils.checking")
    mp = L.module("robuststats.models.mappings")

    def iff(name, raised, cond):
        """raised exactly when cond (symbolic) is false, on this path"""
        if raised:
            true(name + ": refused only when it does not hold", rt.sb_not(cond) if isinstance(cond, SB) else (not cond))
        else:
            true(name + ": accepted only when it holds", cond)

    @C.scenario("check_positive on any real number")
    def _():
        x = scal("x")
        iff("x > 0", outcome(lambda: m.check_positive(x, "x"), ValueError), x > 0)

    @C.scenario("check_positive on any integer")
    def _():
        x = Sc(N.nfac(N.At("int:x", (), False, True)), "int", False)
        iff("x > 0", outcome(lambda: m.check_positive(x, "x"), ValueError), x > 0)

    @C.scenario("check_positive strictly / not strictly")
    def _():
        x = scal("x")
        iff("x > 0", outcome(lambda: m.check_positive(x, "x", strictly=True), ValueError), x > 0)

    @C.scenario("check_positive not strictly")
    def _():
        x = scal("x")
        iff("x >= 0", outcome(lambda: m.check_positive(x, "x", strictly=False), ValueError), x >= 0)

    @C.scenario("check_positive at the boundary")
    def _():
        for v in (0, 0.0, -1, -2.5, 3, 0.5):
            iff("%r > 0" % v, outcome(lambda: m.check_positive(v, "x"), ValueError), v > 0)
            iff("%r >= 0" % v, outcome(lambda: m.check_positive(v, "x", False), ValueError), v >= 0)

    # membership is decided for lists of arbitrary values up to a stated length (the list is a literal at every call site)
    for n in range(0, 5):
        @C.scenario("check_value against %d arbitrary accepted values" % n)
        def _(n=n):
            x = scal("x")
            ys = [scal("y%d" % k) for k in range(n)]
            for cont in (list, tuple):
                iff("x among the accepted values", outcome(lambda: m.check_value(x, "x", cont(ys)), ValueError), rt.sb_or([x == y for y in ys]) if ys else False)

    @C.scenario("check_value on strings and sizes")
    def _():
        iff("'a'", outcome(lambda: m.check_value("a", "x", ["a", "b"]), ValueError), True)
        iff("'b'", outcome(lambda: m.check_value("b", "x", ("a", "b")), ValueError), True)
        iff("'c'", outcome(lambda: m.check_value("c", "x", ["a", "b"]), ValueError), False)
        iff("None", outcome(lambda: m.check_value(None, "x", ["a"]), ValueError), False)
        n = dim("n")
        k = dim("k")
        iff("n among [k]", outcome(lambda: m.check_value(n, "x", [k]), ValueError), n == k)

    @C.scenario("check_type accepts exactly the listed types")
    def _():
        class A:
            pass

        class B(A):
            pass
        vals = [1, 2.5, "s", None, [1], (1,), {}, A(), B(), True]
        b = L.builtins
        types_ = [b['int'], b['float'], b['str'], list, tuple, dict, A, B, b['bool'], type(None)]
        ty = b['type']
        for v in vals:
            for k in range(len(types_)):
                acc = types_[:k]
                iff("%r among %d types" % (v, k), outcome(lambda: m.check_type(v, "v", acc), TypeError), ty(v) in acc)
                iff("%r exactly" % (v,), outcome(lambda: m.check_type(v, "v", [types_[k]]), TypeError), ty(v) is types_[k])
        a = sym("a", [dim("p"), dim("q")])
        iff("ndarray", outcome(lambda: m.check_type(a, "a", [np.ndarray, list]), TypeError), True)
        iff("not ndarray", outcome(lambda: m.check_type(a, "a", [list, tuple]), TypeError), False)

    @C.scenario("iscovariance")
    def _():
        for kind in ("float", "complex", "int"):
            p, q = dim("p"), dim("q")
            a = sym("a", [p, q], kind)
            r = mp.iscovariance(a)
            true("square exactly", (r == (p == q)) if isinstance(r, SB) else (p == q) == r)
            true("square", mp.iscovariance(sym("b", [p, p], kind)) == True)
            for sh in ([p], [p, p, p], [p, p, p, p], []):
                true("%d-d is not a covariance" % len(sh), mp.iscovariance(sym("c%d" % len(sh), sh, kind)) == False)

    def close_sb(n, A, B, rtol, atol):
        i, j = fresh(P_(n), "i"), fresh(P_(n), "j")
        return i, j
    for nm in ("check_Hermitian", "check_Symmetric"):
        for kind in ("float", "complex"):
            @C.scenario("%s (%s): exactly entrywise closeness" % (nm, kind))
            def _(nm=nm, kind=kind):
                p = dim("p")
                A = sym("A", [p, p], kind)
                B = A.T.conj() if nm == "check_Hermitian" else A.T
                rtol, atol = scal("rtol", pos=True), scal("atol", pos=True)
                f = getattr(mp, nm)
                r = f(A, rtol=rtol, atol=atol)
                w = np.allclose(A, B, rtol=rtol, atol=atol)
                w2 = np.allclose(B, A, rtol=rtol, atol=atol)
                same_ = isinstance(r, SB) and isinstance(w, SB) and r.key in (w.key, w2.key)
                RT.oblige("is allclose(A, A^H)" if nm == "check_Hermitian" else "is allclose(A, A^T)", same_ or (r is w), "%r" % (r,))
                r = f(A)
                w = np.allclose(A, B, rtol=1e-5, atol=1e-8)
                w2 = np.allclose(B, A, rtol=1e-5, atol=1e-8)
                RT.oblige("default tolerances", isinstance(r, SB) and r.key in (w.key, w2.key), "%r" % (r,))
                H_ = herm("H", p, kind == "float")
                if nm == "check_Hermitian":
                    true("true on every Hermitian matrix", f(H_))

            @C.scenario("%s (%s): other shapes" % (nm, kind))
            def _(nm=nm, kind=kind):
                p, q = dim("p"), dim("q")
                RT.assume(p == q, False)
                f = getattr(mp, nm)
                r = None
                try:
                    r = f(sym("A", [p, q], kind))
                except Exception as e:
                    RT.oblige("non-square array", isinstance(e, (ValueError, AttributeError, TypeError)), repr(e))
                    return
                true("non-square array is neither", r == False)
