from rsv.spec import *

# (name, shapes, kinds): shapes are built per scenario from symbolic p, q
POINTS = {
    "matrix": (lambda p, q: [(p, q)], ["float"]),
    "square complex matrix": (lambda p, q: [(p, p)], ["complex"]),
    "vector": (lambda p, q: [(p,)], ["float"]),
    "matrix and vector": (lambda p, q: [(p, p), (q,)], ["complex", "float"]),
    "three parts": (lambda p, q: [(p, q), (q,), (1,)], ["float", "float", "complex"]),
}


def register(L):
    C = check("C15")
    B = L.module("robuststats.estimation.base")
    chk = (TypeError, ValueError)

    def batch(name, n, shapes, kinds):
        lead = [] if n is None else [n]
        return [sym("%s_%d" % (name, i), lead + list(sh), k) for i, (sh, k) in enumerate(zip(shapes, kinds))]

    def content(parts, i):
        """entries of the concatenation of batches (n, arrays): component i; n None is a single point"""
        def g(t, *ix):
            r, off = const(0), toP(0)
            for n, ds in parts:
                m = toP(1) if n is None else P_(n)
                c = mul(N.mk_iv("ge", toP(t) - off), N.mk_iv("ge", off + m - 1 - toP(t)))
                r = r + mul(c, ds[i].at(([] if n is None else [toP(t) - off]) + list(ix)))
                off = off + m
            return r
        return g

    def total(parts):
        r = toP(0)
        for n, _ in parts:
            r = r + (toP(1) if n is None else P_(n))
        return sint(r)

    def holds(name, fa, parts, shapes, kinds, dtype=True):
        """len, shape, dtype and export describe exactly the appended entries, in order"""
        n = total(parts)
        RT.oblige(name + ": len", same(P_(fa.__len__()), P_(n)), "%s, want %s" % (fa.__len__(), n))
        sh = fa.shape
        ok = isinstance(sh, tuple) and len(sh) == len(shapes) and all(len(a) == len(b) + 1 and same(P_(a[0]), P_(n)) and all(same(P_(x), P_(y)) for x, y in zip(a[1:], b)) for a, b in zip(sh, shapes))
        RT.oblige(name + ": shape", ok, "%s" % (sh,))
        RT.oblige(name + ": number of manifolds", fa.nb_manifolds == len(shapes), "%s" % fa.nb_manifolds)
        if dtype:
            dts = fa.dtype
            RT.oblige(name + ": dtype", isinstance(dts, tuple) and len(dts) == len(kinds) and all(a.kind == {"float": "f", "complex": "c"}[k] for a, k in zip(dts, kinds)), "%s" % (dts,))
        exported(name, fa, parts, shapes, kinds)

    def exported(name, fa, parts, shapes, kinds, sel=None, nsel=None):
        e = fa.export()
        n = P_(total(parts)) if nsel is None else P_(nsel)
        if len(shapes) == 1:
            e = [e]
        if not RT.oblige(name + ": one array per part", isinstance(e, list) and len(e) == len(shapes), "%r" % (e,)):
            return
        for i, (a, sh, k) in enumerate(zip(e, shapes, kinds)):
            f = content(parts, i)
            g = f if sel is None else (lambda f: lambda t, *ix: f(sel(t), *ix))(f)
            if same(n, 1):
                # a single entry is exported as the point itself
                eq("%s: part %d (single point)" % (name, i), a, list(sh), lambda *ix: g(toP(0), *ix), k)
            else:
                eq("%s: part %d" % (name, i), a, [n] + list(sh), g, k)

    def setup(pn):
        p, q = dim("p", 2), dim("q", 2)
        mk, kinds = POINTS[pn]
        shapes = mk(p, q)
        return B._FeatureArray(*[tuple(s) for s in shapes]), shapes, kinds

    def arg_of(style, ds):
        if style == "tuple":
            return tuple(ds)
        if style == "array":
            return ds[0]
        if style == "feature array":
            o = B._FeatureArray(*[tuple(d.shape[1:]) for d in ds])
            o.append(list(ds))
            return o
        return list(ds)

    for pn in POINTS:
        styles = ["list", "tuple", "feature array"] + (["array"] if len(POINTS[pn][1]) == 1 else [])
        for style in styles:
            @C.scenario("append: %s, given as %s" % (pn, style), bounded="number of parts and their dimensions")
            def _(pn=pn, style=style):
                fa, shapes, kinds = setup(pn)
                RT.oblige("empty: len", fa.__len__() == 0, "")
                parts = []
                for k in range(2 if pn == "three parts" else 3):
                    n = dim("n%d" % k, 2)
                    ds = batch("D%d" % k, n, shapes, kinds)
                    parts.append((n, ds))
                    r = fa.append(arg_of(style, ds))
                    RT.oblige("append returns nothing", r is None, "%r" % (r,))
                    holds("after append %d" % (k + 1), fa, parts, shapes, kinds)

        @C.scenario("append: single points, %s" % pn, bounded="number of parts and their dimensions")
        def _(pn=pn):
            fa, shapes, kinds = setup(pn)
            parts = []
            for k in range(2):
                ds = batch("D%d" % k, None, shapes, kinds)
                parts.append((None, ds))
                fa.append(ds)
                holds("after point %d" % (k + 1), fa, parts, shapes, kinds)
            if pn == "three parts":
                return
            n = dim("n", 2)
            ds = batch("E", n, shapes, kinds)
            parts.append((n, ds))
            fa.append(ds)
            ds = batch("G", None, shapes, kinds)
            parts.append((None, ds))
            fa.append(ds)
            holds("point after a batch", fa, parts, shapes, kinds)

        @C.scenario("append: feature array of one entry, %s" % pn, bounded="number of parts and their dimensions")
        def _(pn=pn):
            fa, shapes, kinds = setup(pn)
            parts = []
            n = dim("n", 2)
            ds = batch("E", n, shapes, kinds)
            fa.append(ds)
            parts.append((n, ds))
            one = B._FeatureArray(*[tuple(s) for s in shapes])
            d1 = batch("D", None, shapes, kinds)
            one.append(d1)
            parts.append((None, d1))
            fa.append(one)
            holds("appended", fa, parts, shapes, kinds)
            holds("argument unchanged", one, [(None, d1)], shapes, kinds)

        # ------------------------------------------------------------ indexing
        for grown in (False, True):
            for kn in ("integer", "numpy integer", "last", "slice", "tail", "all", "index array"):
                @C.scenario("index: %s, %s%s" % (pn, kn, ", grown storage" if grown else ""), bounded="number of parts and their dimensions")
                def _(pn=pn, kn=kn, grown=grown):
                    fa, shapes, kinds = setup(pn)
                    parts = []
                    for k in range(2 if grown else 1):
                        n = dim("n%d" % k, 5)
                        ds = batch("D%d" % k, n, shapes, kinds)
                        parts.append((n, ds))
                        fa.append(ds)
                    n = P_(total(parts))
                    if kn in ("integer", "numpy integer"):
                        i = fresh(n, "q")
                        key = sint(toP(i))
                        if kn == "numpy integer":
                            key = np.int64(key)
                        sel, m = (lambda t: toP(i) + t), toP(1)
                    elif kn == "last":
                        key, sel, m = -1, (lambda t: n - 1 + t), toP(1)
                    elif kn == "slice":
                        a, b = dim("a", 0), dim("b", 2)
                        rt.RT.assume(rt.cmp_nf(fromP(n - P_(a) - P_(b)), ">=")) if hasattr(rt.RT, "assume") else None
                        key, sel, m = slice(a, a + b), (lambda t: P_(a) + t), P_(b)
                    elif kn == "tail":
                        key, sel, m = slice(2, None), (lambda t: toP(2) + t), n - 2
                    elif kn == "all":
                        key, sel, m = slice(None), (lambda t: t), n
                    else:
                        m = P_(dim("m", 2))
                        ia = build([m], lambda t: fromP(PL.mkif("sel", (n, t))), "int")
                        key, sel = ia, (lambda t: PL.mkif("sel", (n, t)))
                    r = fa[key]
                    RT.oblige("a feature array", type(r) is type(fa), "%r" % type(r))
                    RT.oblige("len", same(P_(r.__len__()), m), "%s want %s" % (r.__len__(), m.key))
                    exported("selected entries", r, parts, shapes, kinds, sel, m)
                    holds("original unchanged", fa, parts, shapes, kinds)

        # ------------------------------------------------------------ refused appends
        for bad in ("type", "part type", "dtype", "too few dimensions", "too many dimensions", "number of parts"):
            for when in ("empty", "filled", "grown"):
                if bad == "dtype" and when == "empty" or when == "grown" and pn == "three parts":
                    continue

                @C.scenario("refused append: %s, %s, %s" % (pn, bad, when), bounded="number of parts and their dimensions")
                def _(pn=pn, bad=bad, when=when):
                    fa, shapes, kinds = setup(pn)
                    parts = []
                    for k in range({"empty": 0, "filled": 1, "grown": 2}[when]):
                        n = dim("n%d" % k, 2)
                        ds = batch("D%d" % k, n, shapes, kinds)
                        parts.append((n, ds))
                        fa.append(ds)
                    n = dim("nb", 2)
                    ds = batch("Bad", n, shapes, kinds)
                    j = len(ds) - 1         # the earlier parts are fine
                    if bad == "type":
                        arg = {"a": 1}
                    elif bad == "part type":
                        ds[j] = "no array"
                        arg = ds
                    elif bad == "dtype":
                        ds[j] = sym("Bad", [n] + list(shapes[j]), "complex" if kinds[j] == "float" else "float")
                        arg = ds
                    elif bad == "too few dimensions":
                        ds[j] = sym("Bad", list(shapes[j])[1:], kinds[j])
                        arg = ds
                    elif bad == "too many dimensions":
                        ds[j] = sym("Bad", [2, n] + list(shapes[j]), kinds[j])
                        arg = ds
                    else:
                        arg = ds + [sym("extra", [n, 2])]
                    raises("refused", chk, lambda: fa.append(arg))
                    if parts:
                        holds("unchanged", fa, parts, shapes, kinds)
                    else:
                        RT.oblige("still empty", fa.__len__() == 0, "")
                    n2 = dim("n9", 2)
                    good = batch("Good", n2, shapes, kinds)
                    fa.append(good)
                    holds("next append", fa, parts + [(n2, good)], shapes, kinds)

        # ------------------------------------------------------------ vectorize
        for grown in (False, True):
            @C.scenario("vectorize: %s%s" % (pn, ", grown storage" if grown else ""), bounded="number of parts and their dimensions")
            def _(pn=pn, grown=grown):
                fa, shapes, kinds = setup(pn)
                parts = []
                for k in range(2 if grown else 1):
                    n = dim("n%d" % k, 2)
                    ds = batch("D%d" % k, n, shapes, kinds)
                    parts.append((n, ds))
                    fa.append(ds)
                v = fa.vectorize()
                vector_check(v, parts, shapes, kinds)
                holds("unchanged", fa, parts, shapes, kinds)

    for sk in (False, True):
        for real in (False, True):
            @C.scenario("vectorize: %s %s matrices" % ("real" if real else "complex", "skew" if sk else "symmetric"), bounded="number of parts and their dimensions")
            def _(sk=sk, real=real):
                p, q, n, n1 = dim("p", 2), dim("q", 2), dim("n", 2), dim("n1", 2)
                kinds = ["float" if real else "complex", "float"]
                shapes = [(p, p), (q,)]
                fa = B._FeatureArray(*shapes)
                parts = []
                for k, m in enumerate((n, n1)):
                    h = herm("H%d" % k, p, real, batch=m)
                    if sk:
                        g = sym("G%d" % k, [m, p, p], kinds[0])
                        h = build([P_(m), P_(p), P_(p)], lambda t, i, j, g=g: g.at([t, i, j]) - conj(g.at([t, j, i])), kinds[0])
                    ds = [h, sym("v%d" % k, [m, q])]
                    parts.append((m, ds))
                    fa.append(ds)
                v = fa.vectorize()
                vector_check(v, parts, shapes, kinds, True)
                holds("unchanged", fa, parts, shapes, kinds)

    def vector_check(v, parts, shapes, kinds, force=None):
        n = P_(total(parts))
        off = toP(0)
        cols = []
        for i, sh in enumerate(shapes):
            f = content(parts, i)
            if len(sh) == 2 and same(P_(sh[0]), P_(sh[1])):
                p = P_(sh[0])
                known = {1: None, -1: None}
                for sg in (1, -1):
                    # truth of |D - D^H| < 1e-5 (sg = 1) and |D + D^H| < 1e-5 (sg = -1) at every entry
                    D = build([n, p, p], lambda t, x, y: f(t, x, y) + N.scale(conj(f(t, y, x)), (-sg, 0)), kinds[i])
                    W = np.absolute(D) < 1e-5
                    c = N.renorm(W.body()).const()
                    if c is not None:
                        known[sg] = c[0] == 1
                        continue
                    for F_ in RT.facts:
                        b, pos = (F_.args, False) if F_.kind == "not" else (F_, True)
                        if b.kind == "tok" and isinstance(b.args, tuple) and b.args[0] == "all" and b.args[1].ndim == 3:
                            a = b.args[1]
                            t, x, y = [toP(fresh(s, "q")) for s in a.vshape]
                            if rt.prove_eq(a.at([t, x, y]), W.at([t, x, y])):
                                known[sg] = pos
                if force:
                    RT.oblige("part %d: symmetric or skew is recognised" % i, True in known.values(), "%r" % (known,))
                RT.oblige("part %d: symmetric or skew is decided for all entries together" % i, True in known.values() or list(known.values()) == [False, False], "%r" % (known,))
                if True in known.values():
                    T = (p * (p + 1)).scale(half.const()[0])
                    cols.append((T, lambda t, c, f=f, p=p: f(t, PL.mkif("triu_r", (p, c)), PL.mkif("triu_c", (p, c)))))
                    continue
            if len(sh) == 2:
                a, b = P_(sh[0]), P_(sh[1])
                cols.append((a * b, lambda t, c, f=f, b=b: f(t, PL.idivmod(c, b)[0], PL.idivmod(c, b)[1])))
            else:
                cols.append((P_(sh[0]), lambda t, c, f=f: f(t, c)))
        tot = toP(0)
        for w, _ in cols:
            tot = tot + w
        if not shape_eq("vectorize", v, [n, tot]):
            return
        RT.oblige("dtype", v.kind == ("complex" if "complex" in kinds else "float"), v.kind)
        off = toP(0)
        for i, (w, g) in enumerate(cols):
            t, c = toP(fresh(n, "q")), toP(0) if same(w, 1) else toP(fresh(w, "q"))
            RT.oblige_eq("columns of part %d" % i, v.at([t, off + c]), g(t, c))
            off = off + w
