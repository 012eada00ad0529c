from h import *
from robuststats.estimation.base import _FeatureArray as FA


def points(rng):
    k = int(pick(rng, [1, 1, 2, 3]))
    sh, kinds = [], []
    for _ in range(k):
        d = int(pick(rng, [1, 2, 2]))
        s = tuple(int(x) for x in rng.integers(1, 4, d))
        if d == 2 and rng.integers(2):
            s = (s[0], s[0])
        sh.append(s)
        kinds.append(bool(rng.integers(2)))
    return sh, kinds


def batch(rng, n, sh, kinds, style):
    out = []
    for s, c in zip(sh, kinds):
        x = randn(rng, n, *s, cplx=c) if n else randn(rng, *s, cplx=c)
        if style and len(s) == 2 and s[0] == s[1]:
            h = np.swapaxes(x, -1, -2).conj()
            x = x + h if style == 1 else x - h
        out.append(layout(rng, x) if n else x)
    return out


def ref_vec(parts):
    cols = []
    for a in parts:
        if a.ndim == 3 and a.shape[1] == a.shape[2]:
            h = np.swapaxes(a, 1, 2).conj()
            if (np.abs(a - h) < 1e-5).all() or (np.abs(a + h) < 1e-5).all():
                i, j = np.triu_indices(a.shape[1])
                a = a[:, i, j]
        cols.append(a.reshape(len(a), -1))
    return np.concatenate(cols, axis=1)


def holds(fa, ref, sh, kinds):
    n = len(ref[0])
    ok(len(fa) == n, "len", got=len(fa), want=n)
    ok(fa.shape == tuple((n,) + s for s in sh), "shape", got=fa.shape)
    ok(fa.dtype == tuple(r.dtype for r in ref), "dtype", got=fa.dtype)
    ok(fa.nb_manifolds == len(sh), "nb_manifolds")
    same_export(fa, ref)


def same_export(fa, ref):
    e = fa.export()
    e = [e] if len(ref) == 1 else e
    ok(isinstance(e, list) and len(e) == len(ref), "one exported array per part")
    for a, r in zip(e, ref):
        exact(a, r[0] if len(r) == 1 else r, "exported entries")


@case("C15", 60)
def history(rng):
    """random history of appends, refused appends, reads; checked against plain concatenation"""
    sh, kinds = points(rng)
    fa = FA(*sh)
    ref = None
    style = int(pick(rng, [0, 0, 1, 2]))
    ok(len(fa) == 0, "empty")
    for _ in range(int(rng.integers(1, 9))):
        big = rng.integers(4) == 0
        n = int(pick(rng, [0, 1, 2, 5, 700, 999, 1000, 1001, 2100] if big else [0, 1, 2, 5, 30]))
        if ref is not None and rng.integers(3) == 0:
            bad = refused(rng, sh, kinds)
            try:
                fa.append(bad)
            except (TypeError, ValueError):
                pass
            else:
                ok(False, "bad append refused", bad=type(bad))
            holds(fa, ref, sh, kinds)
        ds = batch(rng, n, sh, kinds, style)
        how = pick(rng, ["list", "tuple", "fa", "arr"])
        arg = ds
        if how == "tuple":
            arg = tuple(ds)
        elif how == "arr" and len(ds) == 1:
            arg = ds[0]
        elif how == "fa":
            arg = FA(*sh)
            arg.append(ds)
        ro = RO(*ds)
        fa.append(arg)
        ro.check()
        new = [d[None] if not n else d for d in ds]
        ref = [np.array(d) for d in new] if ref is None else [np.concatenate([r, d]) for r, d in zip(ref, new)]
        if how == "fa":
            same_export(arg, new)
        holds(fa, ref, sh, kinds)
        reads(rng, fa, ref, sh)
        holds(fa, ref, sh, kinds)


def refused(rng, sh, kinds):
    good = batch(rng, 3, sh, kinds, 0)
    j = int(rng.integers(len(sh)))
    t = int(rng.integers(6))
    if t == 0:
        return "text"
    if t == 1:
        good[j] = good[j].tolist()
        return good
    if t == 2:
        good[j] = good[j].real.copy() if kinds[j] else good[j] + 0j
        return good
    if t == 3:
        good[j] = good[j][None, None]
        return good
    if t == 4:
        good[j] = good[j].astype(np.float32 if not kinds[j] else np.complex64)
        return good
    return good + [np.zeros((3, 2))]


def reads(rng, fa, ref, sh):
    n = len(ref[0])
    i = int(rng.integers(-n, n))
    a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
    ks = [i, np.int64(i), slice(None), rng.integers(-n, n, int(rng.integers(1, 6))), slice(None, None, -1)]
    if b > a:
        ks.append(slice(a, b))
        ks.append(slice(a, b, 2))
    for k in ks:
        g = fa[k]
        r = [x[k] for x in ref]
        r = [x[None] if isinstance(k, (int, np.integer)) else x for x in r]
        ok(type(g) is FA, "indexing returns a feature array")
        ok(len(g) == len(r[0]), "len of the selection", key=k, got=len(g), want=len(r[0]))
        same_export(g, r)
        if rng.integers(3) == 0:
            # the selection is a sequence of its own
            d = [x[:1].copy() for x in r]
            g.append(d)
            same_export(g, [np.concatenate([x, y]) for x, y in zip(r, d)])
    exact(fa.vectorize(), ref_vec(ref), "vectorize")


@case("C15", 40)
def mixed_symmetry(rng):
    """one non-symmetric entry among symmetric ones; near-symmetric entries"""
    p, n = int(rng.integers(2, 4)), int(pick(rng, [1, 2, 5]))
    x = randn(rng, n, p, p, cplx=bool(rng.integers(2)))
    x = x + np.swapaxes(x, 1, 2).conj()
    t = int(rng.integers(4))
    if t == 0:
        x[int(rng.integers(n)), 0, 1] += pick(rng, [1, 1e-3, 1e-4])
    elif t == 1:
        x[int(rng.integers(n)), 0, 1] += 1e-7
    elif t == 2 and np.iscomplexobj(x):
        x = x * 1j
    elif t == 3 and np.iscomplexobj(x):
        x = x.real + 1j * np.abs(x.imag)
    fa = FA((p, p), (2,))
    v = randn(rng, n, 2)
    fa.append([x[:1], v[:1]])
    if n > 1:
        fa.append([x[1:], v[1:]])
    exact(fa.vectorize(), ref_vec([x, v]), "vectorize")
