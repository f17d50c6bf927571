import sys, os
from env import *
from lik import *

RULE = ("Random model (4 kinds), data, targets, scale (also zero), weights (none, integer with zeros, float) and errors (none, scalar, per "
        "coordinate, with correlation, per point, covariance, covariance per point; int or float arrays); non-trivial: errors given and at least 2 points.")

KINDS = ["poly", "gp", "exp", "sine"]


@st.composite
def case(draw, weights=None):
    kind = draw(st.sampled_from(KINDS))
    n = draw(st.integers(1, 5))
    ak = draw(st.sampled_from(["none", "scalar", "a2", "a3", "a2n", "a3n", "c", "cn", "default"]))
    c = dict(kind=kind, p=[draw(s) for s in PARS[kind]], u=[draw(fl(-2.5, 2.5)) for _ in range(n)],
             dx=[draw(RESID) for _ in range(n)], dy=[draw(RESID) for _ in range(n)], ak=ak,
             s=draw(st.one_of(fl(0.2, 2), st.sampled_from([0.0, 1.0]))), as_int=draw(st.booleans()))
    one = tup(fl(0.2, 2), fl(0.2, 2), fl(-0.9, 0.9))
    c["e"] = draw(st.lists(one, min_size=n, max_size=n) if ak in ("a2n", "a3n", "cn") else one)
    wk = weights or draw(st.sampled_from(["none", "int", "float"]))
    c["w"] = None if wk == "none" else draw(st.lists(st.integers(0, 3) if wk == "int" else fl(0.1, 3), min_size=n, max_size=n))
    return c


def cov(e, r=True):
    sy, sx, rho = e
    return [[sy * sy, sy * sx * rho if r else 0], [sy * sx * rho if r else 0, sx * sx]]


class XY:
    def __init__(self, c):
        self.c = c
        self.u, self.p = A(c["u"]), A(c["p"])
        self.n = len(self.u)
        self.model = mdl(c["kind"])
        self.F = self.model.result(self.u, self.p)
        if not numpy.all(numpy.isfinite(self.F)) or numpy.max(numpy.abs(self.F)) > 1e4:
            raise Skip("model not finite")
        self.x, self.y = self.u + A(c["dx"]), self.F + A(c["dy"])
        self.kw, self.C = self.errors(c["ak"], c["e"])
        self.w = None if c["w"] is None else A(c["w"])
        if c["w"] is not None and c["as_int"] and all(isinstance(v, int) for v in c["w"]):
            self.w = numpy.asarray(c["w"])
        self.s = c["s"]
        if numpy.any(self.det() < 1e-6):
            raise Skip("singular covariance")

    def errors(self, ak, e):
        I = numpy.zeros((2, 2))
        n = self.n
        if ak in ("none", "default"):
            return {}, numpy.array([I] * n)
        if ak == "scalar":
            return dict(accuracy=e[0]), numpy.array([numpy.identity(2) * e[0] ** 2] * n)
        if ak == "a2": return dict(accuracy=A(e[:2]) if e[0] > 1 else e[:2]), numpy.array([cov(e, False)] * n)
        if ak == "a3": return dict(accuracy=A(e)), numpy.array([cov(e)] * n)
        if ak == "c": return dict(covar=cov(e)), numpy.array([cov(e)] * n)
        if ak == "a2n": return dict(accuracy=A(e)[:, :2].copy()), numpy.array([cov(v, False) for v in e])
        if ak == "a3n": return dict(accuracy=A(e)), numpy.array([cov(v) for v in e])
        if ak == "cn": return dict(covar=A([cov(v) for v in e])), numpy.array([cov(v) for v in e])

    def det(self, s=None):
        M = self.C + numpy.identity(2) * (self.s if s is None else s) ** 2
        return numpy.linalg.det(M)

    def prob(self, **kw):
        k = dict(self.kw)
        if self.w is not None: k["weights"] = self.w
        k.update(kw)
        return bf.ErrorsInXandYProblem(self.model, self.x, self.y, prior=bf.GaussPrior(scale=0.5), **k)

    def allp(self):
        return numpy.concatenate((self.p, self.u, [self.s]))

    def loglik(self, allp):
        np = len(self.p)
        p, u, s = allp[:np], allp[np:-1], allp[-1]
        d = numpy.stack((self.y - self.model.result(u, p), self.x - u), axis=1)
        M = self.C + numpy.identity(2) * s ** 2
        q = numpy.array([v @ numpy.linalg.solve(m, v) for v, m in zip(d, M)])
        l = -0.5 * q - numpy.log(2 * math.pi) - 0.5 * numpy.log(numpy.linalg.det(M))
        return l if self.w is None else l * self.w


def close(a, b, what, tol=1e-9):
    a, b = A(a), A(b)
    ok(a.shape == b.shape and numpy.all(numpy.abs(a - b) <= tol * (1 + numpy.abs(b))), "%s: got %s, expected %s" % (what, a.tolist(), b.tolist()))


def lab(c):
    return (c["ak"] + ("/w" if c["w"] is not None else "")) if c["ak"] not in ("none", "default") and len(c["u"]) > 1 else None


def like(c):
    X = XY(c)
    kw0 = {k: numpy.array(v).copy() for k, v in X.kw.items()}
    pr = X.prob()
    q = X.allp()
    ed = bf.Gauss2dErrorDistribution(scale=c["s"] or 1.0)
    ok(pr.npars == len(c["p"]) + X.n, "number of parameters %d, expected %d" % (pr.npars, len(c["p"]) + X.n))
    ref = X.loglik(q)
    for name, p in (("", pr), (" of a copy", pr.copy())):
        close(ed.logLdata(p, q), ref, "logLdata" + name)
        close(ed.logLikelihood(p, q), numpy.sum(ref), "logLikelihood" + name)
        close(ed.logLikelihood_alt(p, q), numpy.sum(ref), "logLikelihood_alt" + name)
        ok(p.npars == pr.npars and p.hasAccuracy == pr.hasAccuracy, "copy differs")
    close(pr.result(q[:-1]), X.F, "result")
    yr, xr = pr.getXYresiduals(q[:-1])
    close(yr, X.y - X.F, "y residuals")
    close(xr, X.x - X.u, "x residuals")
    for k, v in kw0.items():
        ok(numpy.array_equal(v, numpy.array(X.kw[k])), "%s of the user was changed" % k)
    one = numpy.ones(X.n)
    close(pr.varyy * one, X.C[:, 0, 0], "varyy")
    close(pr.varxx * one, X.C[:, 1, 1], "varxx")
    close(pr.varxy * one, X.C[:, 0, 1], "varxy")
    # later setting is the same as giving it to the constructor
    p2 = bf.ErrorsInXandYProblem(X.model, X.x, X.y)
    if X.kw:
        for k, v in X.kw.items():
            setattr(p2, k, v)
    if X.w is not None:
        p2.weights = X.w
    close(ed.logLikelihood(p2, q), numpy.sum(ref), "errors or weights set later")
    return lab(c)


def grad(c):
    X = XY(c)
    pr = X.prob()
    q = X.allp()
    np = len(q) - 1
    ed = bf.Gauss2dErrorDistribution(scale=c["s"] or 1.0)
    fi = list(range(np)) + [-1]
    if c["as_int"]:
        fi = fi[1:]
    cnt = []
    got = None
    ed.__dict__["numPartialLogL"] = lambda *a: cnt.append(1) or numpy.zeros(len(fi))
    got = A(ed.partialLogL(pr, q, numpy.asarray(fi)))
    ok(not cnt, "the analytic gradient failed")
    alt = A(ed.partialLogL_alt(pr, q, numpy.asarray(fi)))
    ok(got.shape == (len(fi),), "shape of the gradient")
    from c10 import numgrad
    for j, k in enumerate(fi):
        kk = k if k >= 0 else np
        if kk == np and c["s"] == 0:
            continue
        e, err = numgrad(lambda v: numpy.array([numpy.sum(X.loglik(v))]), q, kk)
        tol = 3e-5 * (1 + numpy.abs(e[0]) + numpy.max(numpy.abs(got))) + 10 * err[0]
        if not math.isfinite(tol) or tol > 1e-2 * (1 + numpy.max(numpy.abs(got))):
            raise Skip("reference gradient not accurate")
        ok(abs(got[j] - e[0]) <= tol, "gradient to %d: got %g, expected %g" % (k, got[j], e[0]))
        ok(abs(alt[j] - e[0]) <= tol, "alternative gradient to %d: got %g, expected %g" % (k, alt[j], e[0]))
    return lab(c)


def partials(c):
    """partials and derivative of the combined problem"""
    X = XY(c)
    pr = X.prob()
    q = X.allp()[:-1]
    part = pr.partial(q)
    n, np = X.n, len(c["p"])
    e = numpy.zeros((2 * n, np + n))
    e[:n, :np] = X.model.partial(X.u, X.p)
    e[:n, np:] = numpy.diag(X.model.derivative(X.u, X.p))
    e[n:, np:] = numpy.identity(n)
    close(part, e, "partial")
    close(pr.derivative(q), X.model.derivative(X.u, X.p), "derivative")
    return lab(c) or "any"


def mult(c):
    X = XY(c)
    w = c["w"]
    if w is None or not all(isinstance(v, int) for v in w) or sum(w) == 0:
        raise Skip("no integer weights")
    ix = numpy.repeat(numpy.arange(X.n), w)
    ed = bf.Gauss2dErrorDistribution(scale=1.0)
    kw = dict(X.kw)
    if c["ak"] in ("a2n", "a3n"): kw["accuracy"] = kw["accuracy"][ix]
    if c["ak"] == "cn": kw["covar"] = kw["covar"][ix]
    p2 = bf.ErrorsInXandYProblem(X.model, X.x[ix], X.y[ix], **kw)
    q2 = numpy.concatenate((X.p, X.u[ix], [X.s]))
    pr = X.prob()
    close(ed.logLikelihood(pr, X.allp()), ed.logLikelihood(p2, q2), "weights versus repeated points")
    ok(pr.sumweight == sum(w), "sumweight %s, expected %d" % (pr.sumweight, sum(w)))
    return lab(c)


def swap(c):
    """a straight line with x and y exchanged has the same likelihood"""
    if c["kind"] != "poly" or abs(c["p"][1]) < 0.1:
        raise Skip("no straight line")
    X = XY(c)
    C2 = X.C[:, ::-1, ::-1]
    s = dict(none={}, default={}).get(c["ak"])
    pr = X.prob()
    kw = {} if s is not None else dict(covar=C2.copy())
    if X.w is not None: kw["weights"] = X.w
    a, b = c["p"]
    p2 = bf.ErrorsInXandYProblem(bf.PolynomialModel(1), X.y, X.x, **kw)
    q2 = numpy.concatenate(([-a / b, 1 / b], a + b * X.u, [X.s]))
    ed = bf.Gauss2dErrorDistribution(scale=1.0)
    close(ed.logLikelihood(pr, X.allp()), ed.logLikelihood(p2, q2), "x and y exchanged", 1e-7)
    return lab(c)


def nuis(c):
    """targets have a prior around the measured positions; model parameters their own"""
    X = XY(c)
    X.model.setLimits([-10.0] * len(c["p"]), [10.0] * len(c["p"]))
    pr = X.prob()
    np = len(c["p"])
    ref = bf.GaussPrior(scale=0.5)
    for k in range(X.n):
        for u in (0.1, 0.5, 0.83):
            d = pr.unit2Domain(u, np + k)
            close(d - X.x[k], ref.unit2Domain(u), "unit2Domain of target %d" % k)
            close(pr.domain2Unit(d, np + k), u, "domain2Unit of target %d" % k)
    for k in range(np):
        close(pr.domain2Unit(X.p[k], k), (X.p[k] + 10) / 20, "domain2Unit of parameter %d" % k)
        close(pr.unit2Domain(0.3, k), -4.0, "unit2Domain of parameter %d" % k)
    from BayesicFitting.source.Engine import Engine
    eng = Engine([], bf.Gauss2dErrorDistribution(scale=1.0, limits=[0.1, 10.0]), phantoms=[])
    q = X.allp()
    q[-1] = 1.0
    uv = eng.domain2Unit(pr, q)
    e = [(v + 10) / 20 for v in X.p] + [ref.domain2Unit(a - b) for a, b in zip(X.u, X.x)] + [0.5]
    close(uv, e, "all parameters to unit", 1e-8)
    if numpy.all(numpy.abs(A(c["dx"])) < 2):
        close(eng.unit2Domain(pr, uv), q, "all parameters there and back", 1e-6)
    return lab(c) or "any"


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import importlib.util
    spec = importlib.util.spec_from_file_location("c10", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c10_gradient.py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules["c10"] = m
    spec.loader.exec_module(m)
    sys.exit(main("C27", [
        Sub("likelihood", case(), like, 400, 20000),
        Sub("gradient", case(), grad, 300, 12000),
        Sub("partials", case(), partials, 150, 4000),
        Sub("multiplicity", case("int"), mult, 200, 8000),
        Sub("exchange", case().map(lambda c: dict(c, kind="poly", p=(c["p"] + [1.0])[:2])), swap, 200, 8000),
        Sub("targets", case(), nuis, 150, 6000),
    ], RULE))
