"""Expectations of polynomials in random draws (used by the contracts of the data generators)."""
from rsv.spec import *


def draws(*dists):
    """the draws made so far from the given distributions: [(name, dist, params, shape)]"""
    return [d for d in RT.draws if not dists or d[1] in dists]


def names(dist):
    return {PL.short(d[0]): d for d in RT.draws if d[1] == dist}


def wick2(x):
    """expectation of an expression of degree <= 2 in independent standard normal draws; None outside that"""
    nm = names("normal01")
    acc = N.Acc()
    for T, c in x.t.items():
        b, f = N.openT(T)
        rnd, rest = [], []
        for g, e in f:
            if isinstance(g, N.At) and g.name in nm:
                if isinstance(e, N.NF) or e not in (1, 2):
                    return None
                rnd += [g] * int(e)
            else:
                if any(n in loops_mentions(g) for n in nm):
                    return None
                rest.append((g, e))
        if len(rnd) == 1:
            continue
        if len(rnd) == 2:
            u, v = rnd
            if u.name != v.name:
                continue
            raws = [N.Raw(c, b, rest)]
            for p, q in list(zip(u.idx, v.idx)) + list(zip(u.params, v.params)):
                raws = N.times_pow(raws, N.delta(p, q), 1)
            for r in raws:
                acc.add_raw(r)
        elif len(rnd) == 0:
            acc.add_raw(N.Raw(c, b, f))
        else:
            return None
    return acc.nf()


def loops_mentions(g):
    from rsv.loops import _mf
    s = set()
    _mf(g, s)
    return s


def mean1(x):
    """expectation of an expression affine in independent draws of known mean; None outside that"""
    means = {}
    for d in RT.draws:
        ps = d[2]
        if d[1] == "gamma":
            means[PL.short(d[0])] = mul(ps[0], ps[1])
        elif d[1] == "lognorm":
            means[PL.short(d[0])] = N.mk_exp(mul(half, mul(ps[0], ps[0])))
        elif d[1] == "lognormal":
            means[PL.short(d[0])] = N.mk_exp(ps[0] + mul(half, mul(ps[1], ps[1])))
        elif d[1] == "uniform01":
            means[PL.short(d[0])] = half
        elif d[1] in ("normal01",):
            means[PL.short(d[0])] = const(0)
        elif d[1] in ("chisquare", "exponential"):
            means[PL.short(d[0])] = ps[0]
    acc = const(0)
    for T, c in x.t.items():
        b, f = N.openT(T)
        hit = [g for g, e in f if loops_mentions(g) & set(means)]
        if len(hit) > 1 or (hit and (not isinstance(hit[0], N.At) or dict(f)[hit[0]] != 1)):
            return None
        if b and hit:
            return None
        e = const(0)
        a = N.Acc()
        a.add_raw(N.Raw(c, b, [(g, e) for g, e in f if g not in hit]))
        e = a.nf()
        if hit:
            e = mul(e, means[hit[0].name])
        acc = acc + e
    return acc
