from h import *
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as SGD
from robuststats.models.manifolds import HermitianPositiveDefinite


class Man:
    """retraction that depends on the point and the vector in a non-symmetric way; records its arguments"""

    def __init__(self, struct):
        self.struct, self.calls = struct, []

    def one(self, x, u):
        y = herm(x + u + 0.01 * u @ la.solve(x, u)) if x.shape[0] == x.shape[1] else x * np.exp(np.clip(np.real(u / x), -1, 1))
        return y

    def retr(self, x, u):
        self.calls.append((x, u))
        if self.struct is None:
            return self.one(x, u)
        r = [self.one(a, b) for a, b in zip(x, u)]
        return r if self.struct == "list" else tuple(r)


def build(rng, p, struct, gk, e2c):
    W = randherm(rng, p, True) * 0.02

    def grad(x, est):
        assert x.shape == (1, p), "rgrad called with shape %r" % (x.shape,)
        if struct is None:
            return 0.02 * herm(x.T @ x.conj() / (1 + np.linalg.norm(x) ** 2) - W @ est @ W)
        g = [0.02 * herm(x.T @ x.conj() / (1 + np.linalg.norm(x) ** 2) - 0.1 * W @ est[0] @ W), 0.01 * np.real(x[0, 0]) * est[1]]
        return g if gk == "list" else tuple(g)

    def image(est):
        if struct is None:
            return 2 * est + np.eye(p)
        return est[0] * float(np.sum(est[1]))
    return grad, image if e2c else None


def run(rng, via):
    n, p = int(pick(rng, [1, 2, 3, 8])), int(pick(rng, [1, 2, 3]))
    struct, gk = pick(rng, [(None, None), ("list", "list"), ("tuple", "tuple"), ("list", "tuple"), ("tuple", "list")])
    e2c = struct is not None or bool(rng.integers(2))
    X = layout(rng, randn(rng, n, p, cplx=True))
    lr = float(10 ** rng.uniform(-2, 0.3))
    grad, image = build(rng, p, struct, gk, e2c)
    rule = pick(rng, ["inverse iteration", "constant", None, "other", "default"])
    man = Man(struct)
    x0 = randpd(rng, p, True, cond=3, scale=1.)
    if struct is not None:
        x0 = [x0, np.exp(rng.standard_normal((3, 1)))]
        x0 = x0 if struct == "list" else tuple(x0)
    ro = RO(X, *(x0 if struct else [x0]))
    img = image or (lambda e: e)
    est = SGD(man, grad, lr, estimatetocov=image, verbosity=bool(rng.integers(6) == 0), cost=None)
    est2ref = lambda e: e if struct is None else tuple(e)

    def same(a, b, msg):
        la_, lb_ = ([a], [b]) if struct is None else (list(a), list(b))
        ok(len(la_) == len(lb_), msg + ": number of components")
        for s, t in zip(la_, lb_):
            close(s, t, msg, rtol=1e-9, n=n, p=p, rule=rule, struct=struct)
    ref = Man(struct)
    x = x0
    traj = []
    for i in range(n):
        g = grad(X[i].reshape(1, -1), x)
        t = lr / (i + 1) if (rule in ("inverse iteration", "default") and via == "fit") else (lr if via == "fit" or rule not in ("inverse iteration", "default") else lr / 1)
        u = t * g if struct is None else type(g)([t * a for a in g])
        x = ref.retr(x, u)
        traj.append(x)
    kw = {} if rule == "default" else {"lr_update": rule}
    if via == "fit":
        r = est.fit(X, init=x0, **kw) if rng.integers(2) else est.fit(X, None, x0, **kw)
        ok(r is est, "fit returns the estimator")
        ok(len(man.calls) == n, "one retraction per sample", calls=len(man.calls), n=n)
        for (a, u), (b, v) in zip(man.calls, ref.calls):
            same(a, b, "point of the retraction")
            same(u, v, "tangent vector of the retraction")
            ok(struct is None or type(u) is type(v), "structure of the tangent vector")
    else:
        est.set_estimate(x0)
        same(est.estimate_, x0, "estimate after set_estimate")
        close(est.covariance_, img(x0), "covariance after set_estimate", rtol=1e-9)
        for i in range(n):
            r = est.update(X[i].reshape(1, -1), rule if rule != "default" else "inverse iteration")
            ok(r is est, "update returns the estimator")
            same(est.estimate_, traj[i], "estimate after an update")
            close(est.covariance_, img(traj[i]), "covariance after an update", rtol=1e-9)
    same(est.estimate_, x, "estimate after the last sample")
    close(est.covariance_, img(x), "covariance is the image of the estimate", rtol=1e-9)
    ro.check()


@case("C26", 120)
def fit(rng):
    run(rng, "fit")


@case("C26", 60)
def update(rng):
    run(rng, "update")


@case("C26", 20)
def no_start(rng):
    p = int(rng.integers(1, 4))
    X = randn(rng, 4, p, cplx=True)
    bad = []
    est = SGD(Man(None), lambda *a: bad.append(1), 0.1)
    before = dict(est.__dict__)
    for f in (lambda: est.fit(X), lambda: est.fit(X, None, None, "constant"), lambda: est.update(X[:1], "inverse iteration"), lambda: est.update(X[:1], "constant")):
        with Logs() as lg:
            r = f()
        ok(r is est, "returns the estimator")
        ok(lg.has(logging.ERROR), "an error is logged")
        ok(est.__dict__ == before and not bad, "the estimator is unchanged", now=est.__dict__)


@case("C26", 30)
def hpd_manifold(rng):
    """against the library's own manifold"""
    n, p = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    man = HermitianPositiveDefinite(p)
    X = randn(rng, n, p, cplx=True)
    x0 = randpd(rng, p, True, cond=3, scale=1.)
    grad = lambda x, S: herm(S - p * (x.T @ x.conj()) / np.real(x.conj() @ la.solve(S, x.T)).item())
    est = SGD(man, grad, -0.05)
    est.fit(X, init=x0)
    S = x0
    for i in range(n):
        S = man.retr(S, -0.05 / (i + 1) * grad(X[i:i + 1], S))
    close(est.estimate_, S, "estimate", rtol=1e-9)
    close(est.covariance_, S, "covariance", rtol=1e-9)
