"""Shared contract of the fixed-point estimators:
   the result is the K-th iterate of the stated map, K the first count at which the stopping rule holds."""
from rsv.spec import *
from rsv.loops import Orbit


def frob2(p, f):
    return S(p, lambda i: S(p, lambda j: N.mul(f(i, j), conj(f(i, j)))))


def relchange(p, new, old):
    d = lambda i, j: new(i, j) - old(i, j)
    return N.mul(npow(frob2(p, d), half), npow(frob2(p, old), -half))


class FixedPoint:
    """X (n x p), weight function w(d) -> NF, optional initial matrix"""

    def __init__(self, real, w, init, X=None, n=None, p=None, loop=None):
        self.real = real
        self.n, self.p = n or dim("n"), p or dim("p")
        self.kind = "float" if real else "complex"
        self.X = X if X is not None else sym("X", [self.n, self.p], self.kind)
        self.w = w
        n, p, X = self.n, self.p, self.X
        # centred sample covariance  (1/N) sum x x^H
        self.scm = lambda i, j: N.mul(npow(fromP(P_(n)), -1), S(n, lambda t: N.mul(X.at([t, i]), conj(X.at([t, j])))))
        if init == "default":
            self.init = None
            self.m0 = self.scm
        else:
            M0 = msym("S0", p, "hpd", real)
            self.init = mat(M0)
            self.m0 = M0.at
        self.orbit = Orbit([("It", P_(p), "hpd", real, lambda i, j: self.m0(i, j))], self.step, loop=None)
        RT.orbits = [self.orbit]

    def it(self, k):
        k = toP(k)
        if k.const() == 0:
            return Mat(self.m0, self.p)     # rebuilt: uses the facts of the current path
        return N.MSym("It", P_(self.p), (k,), "hpd", self.real)

    def d(self, ginv, t):
        p, X = self.p, self.X
        return S(p, lambda i: S(p, lambda j: N.mul(N.mul(conj(X.at([t, i])), ginv(i, j)), X.at([t, j]))))

    def step(self, mats):
        # mats: list of entry functions; the matrix itself is needed for its inverse
        M = Mat(mats[0], self.p)
        return [self.stepM(M)]

    def stepM(self, M):
        n, X = self.n, self.X
        gi = inv(M)
        return lambda i, j: N.mul(npow(fromP(P_(n)), -1), S(n, lambda t: N.mul(self.w(self.d(gi, t)), N.mul(X.at([t, i]), conj(X.at([t, j]))))))

    def iterate(self, K, unfold):
        if K.const() == 0:
            return self.m0
        if unfold:
            return self.stepM(self.it(K - 1))
        return self.it(K).at

    def run(self, call, tol, iter_max, norm=None):
        """call() -> (sigma, delta, iteration); proves the whole contract"""
        p = self.p

        def cont(L, k):
            # iteration k is entered and left normally: the rule did not hold before it, or does not hold after it
            kk = toP(k)
            ok_max = RT.proves(rt.cmp_nf(nfof(iter_max) - fromP(kk) - const(1), ">="))
            RT.oblige("continues only below the limit", ok_max, "iteration %s runs although the limit may be reached" % kk.key, "z3")
            a = None
            if kk.const() != 0:
                dk = relchange(p, self.it(kk).at, self.it(kk - 1).at)
                a = rt.cmp_nf(dk - nfof(tol), ">")
                if RT.proves_eq(a):
                    RT.oblige("continues only above the tolerance", True, "", "z3")
                    return
                # the previous iterate may be recorded unfolded
                dk = relchange(p, self.iterate(kk, True), self.it(kk - 1).at)
                if RT.proves_eq(rt.cmp_nf(dk - nfof(tol), ">")):
                    RT.oblige("continues only above the tolerance", True, "", "z3")
                    return
            dn = relchange(p, self.iterate(kk + 1, True), self.it(kk).at)
            b = rt.cmp_nf(dn - nfof(tol), ">")
            if kk.const() == 0 and not self.checks_after:
                RT.oblige("continues only above the tolerance", True, "", "const")
                return
            RT.oblige("continues only above the tolerance", RT.proves_eq(b), "iteration %s continues although the relative change may be at most the tolerance; facts: %s" % (kk.key, [f.key[:300] for f in RT.facts]), "z3")
        self.checks_after = False
        RT.on_continue = cont
        sigma, delta, iteration = call()
        K = rt.as_poly(iteration)
        if K is None:
            RT.oblige("count is an integer", False, "%r" % (iteration,))
            return
        K = PL.nrm(K)
        k0 = K.const() == 0
        RT.oblige("count >= 0", PL.ge0(K), K.key)
        ks = [e for e in RT.exits]
        if norm is None:
            norm = lambda M: const(1)
        okv = False
        want = None
        for unf in ((False,) if k0 else (False, True)):
            f = self.iterate(K, unf)
            M = Mat(f, p)
            z = norm(M)
            w = lambda i, j: N.mul(f(i, j), npow(z, -1))
            g = self._entries(sigma)
            if g is None:
                RT.oblige("estimate is a p x p matrix", False)
                return
            q1, q2 = toP(fresh(P_(p), "q")), toP(fresh(P_(p), "q"))
            if rt.prove_eq(g(q1, q2), w(q1, q2)):
                okv = True
                break
            want = want or w(q1, q2)
        RT.oblige("estimate is the K-th iterate, normalised (K = returned count)", okv, "code: %s\nspec: %s (K = %s)" % (N.show(g(q1, q2), 900), N.show(want, 900) if want is not None else "?", K.key), "nf")
        # the loop performed exactly K steps
        if k0:
            RT.oblige("error is infinite when no iteration ran", rt.isinf(delta) and delta > 0, "%r" % (delta,))
            RT.oblige("stops at the limit", RT.proves(rt.cmp_nf(-nfof(iter_max), ">=")), "", "z3")
            return
        if rt.isinf(delta) or not isinstance(delta, (Sc, Arr)):
            RT.oblige("error is the relative change", False, "%r" % (delta,))
            return
        dv = nfof(delta if isinstance(delta, Sc) else delta.item())
        okd = False
        for u in (False, True):
            if rt.prove_eq(dv, relchange(p, self.iterate(K, u), self.iterate(K - 1, False))):
                okd = True
        RT.oblige("error is the relative Frobenius change of the last step", okd, "code: %s\nspec: %s" % (N.show(dv, 900), N.show(relchange(p, self.iterate(K, False), self.iterate(K - 1, False)), 900)), "nf")
        stop = rt.sb_or([rt.cmp_nf(nfof(tol) - dv, ">="), rt.cmp_nf(fromP(K) - nfof(iter_max), ">=")])
        RT.oblige("stops only when the rule holds", RT.proves_eq(stop), "facts: %s" % [f.key[:300] for f in RT.facts], "z3")

    def _entries(self, s):
        if isinstance(s, Arr) and s.ndim == 2 and all(same(x, P_(self.p)) for x in s.vshape):
            return lambda i, j: s.at([i, j])
        return None


NORMS = {
    "None": lambda p: (lambda M: const(1)),
    "trace": lambda p: (lambda M: N.mul(N.re(S(p, lambda i: M.at(i, i))), npow(fromP(P_(p)), -1))),
    "determinant": lambda p: (lambda M: npow(N.re(N.mk_det(M)), npow(fromP(P_(p)), -1))),
    "element": lambda p: (lambda M: M.at(toP(0), toP(0))),
}
