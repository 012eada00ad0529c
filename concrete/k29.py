from h import *
from robuststats.utils import checking as CK
from robuststats.models import mappings as MP


@case("C29", 150)
def values(rng):
    x = pick(rng, [0, 0., -0., 1, -1, 1e-300, -1e-300, np.inf, -np.inf, np.nan, True, False, np.float64(0), np.int64(-3), np.float32(2), 3, float(rng.standard_normal())])
    for strict in (True, False, None):
        f = (lambda: CK.check_positive(x, "x")) if strict is None else (lambda: CK.check_positive(x, "x", strictly=strict))
        good = x >= 0 if strict is False else x > 0
        if good:
            ok(f() is None, "accepts a positive value", x=x)
        else:
            raises(ValueError, f, "check_positive(%r, strictly=%r)" % (x, strict))
    y = pick(rng, [1, 1.0, "a", None, [1], (1,), True, np.float64(1), np.int64(1), np.ones(2), {}, 1j])
    types = [pick(rng, [int, float, str, type(None), list, tuple, bool, np.float64, np.ndarray, dict]) for _ in range(int(rng.integers(0, 4)))]
    types = pick(rng, [list, tuple])(types)
    if any(type(y) is t for t in types):
        ok(CK.check_type(y, "y", types) is None, "accepts the type")
    else:
        raises(TypeError, lambda: CK.check_type(y, "y", types), "check_type(%r, %r)" % (y, types))
    z = pick(rng, ["a", "b", 1, 2, None, 1.5, "", 0])
    vals = [pick(rng, ["a", "b", 1, 2, None, 1.5, "", 0, "ab"]) for _ in range(int(rng.integers(0, 4)))]
    if any(z == v for v in vals):
        ok(CK.check_value(z, "z", vals) is None, "accepts the value")
    else:
        raises(ValueError, lambda: CK.check_value(z, "z", vals), "check_value(%r, %r)" % (z, vals))


@case("C29", 150)
def matrices(rng):
    n = int(rng.integers(1, 6))
    shp = pick(rng, [(n, n), (n, n + 1), (n,), (), (n, n, n), (n + 1, n), (1, n, n), (n, n, 1)])
    a = randn(rng, *shp, cplx=bool(rng.integers(2)))
    r = MP.iscovariance(a)
    ok(bool(r) == (len(shp) == 2 and shp[0] == shp[1]), "iscovariance", shape=shp, got=r)
    cplx = bool(rng.integers(2))
    m = randn(rng, n, n, cplx=cplx)
    k = rng.integers(4)
    if k == 0:
        m = herm(m)
    elif k == 1:
        m = (m + m.T) / 2
    elif k == 2:
        m = herm(m)
        i, j = rng.integers(n), rng.integers(n)
        m[i, j] += 10. ** rng.uniform(-10, -3) * (1j if cplx and rng.integers(2) else 1)
    m = layout(rng, m)
    kw = dict(rtol=10. ** rng.uniform(-9, -1), atol=10. ** rng.uniform(-12, -2)) if rng.integers(2) else {}
    rt, at = kw.get("rtol", 1e-5), kw.get("atol", 1e-8)
    ro = RO(m)
    for nm, t in (("check_Hermitian", m.conj().T), ("check_Symmetric", m.T)):
        d = np.abs(m - t)
        lim = at + rt * np.abs(t)
        if np.any(np.abs(d - lim) <= 1e-9 * lim):
            continue
        want = bool(np.all(d <= lim))
        got = getattr(MP, nm)(m, **kw)
        ok(bool(got) == want, nm, got=got, want=want, m=m, tol=(rt, at))
    ro.check()
