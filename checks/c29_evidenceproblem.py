"""C29: the evidence of a model as likelihood: ModelDistribution and EvidenceProblem"""
from env import *
from pbt import *
from catalog import fl, nz
from numpy.random import RandomState

RULE = ("Linear dynamic and modifiable models (polynomial, harmonic, splines; alone or in a chain with a static model), grown, shrunk and varied at "
        "random, data with weights or accuracies, fixed or free noise scale, several arbiters. The likelihood of ModelDistribution must be the log "
        "evidence from an independent weighted least squares solution, the parameters must become those of the best fit. The same for every sample of "
        "a NestedSampler run on an EvidenceProblem. NestedSampler as arbiter must agree within its errors. Non-trivial: weights, accuracies, free scale, "
        "a chain, or a changed model.")
A = numpy.asarray
L2PI = math.log(2 * math.pi)


@st.composite
def case(draw, arb=True):
    c = dict(kind=draw(st.sampled_from(["poly", "harm", "spline"])), seed=draw(st.integers(0, 10 ** 6)))
    c["n"] = draw(st.integers(12, 25))
    c["start"] = draw(st.integers(0, 3))
    c["steps"] = draw(st.lists(st.sampled_from(["grow", "shrink", "vary"]), max_size=5))
    c["chain"] = draw(st.sampled_from(["", "", "before", "after"]))
    c["w"] = draw(st.sampled_from([None, None, "w", "int"]))
    c["acc"] = draw(st.sampled_from([None, None, None, "one", "all"]))
    c["noise"] = draw(st.one_of(st.none(), st.tuples(fl(0.01, 0.1), fl(1, 20)).map(list)))
    c["scale"] = draw(fl(0.2, 3))
    c["lim"] = [draw(fl(-4000, -1000)), draw(fl(1000, 6000))]
    c["full"] = draw(st.booleans())
    c["arbiter"] = draw(st.sampled_from([None, None, "fitter", "Fitter", "levenberg", "curve"])) if arb else None
    if c["arbiter"] == "curve": c["acc"] = None
    if c["acc"]: c["noise"] = None
    return c


def model(c):
    k, s = c["kind"], c["start"]
    m = (bf.PolynomialDynamicModel(s, maxDegree=5) if k == "poly" else bf.HarmonicDynamicModel(s + 1, maxOrder=4) if k == "harm" else
         bf.SplinesDynamicModel(nrknots=3 + s, order=2, min=0, max=1, maxKnots=7))
    lo, hi = c["lim"]
    if c["chain"]:
        e = bf.PowerModel(7)
        if c["chain"] == "before":
            e.setLimits([lo], [hi])
            m.setLimits([lo] * (m.npars if c["full"] else 1), [hi] * (m.npars if c["full"] else 1)) if m.npars else None
            m = e + m
        else:
            m.setLimits([lo] * m.npars, [hi] * m.npars)
            e.setLimits([lo], [hi])
            m = m + e
    elif m.npars:
        q = m.npars if c["full"] else 1
        m.setLimits([lo] * q, [hi] * q)
    return m


def change(m, c, rng):
    """grow, shrink and vary the dynamic one"""
    off, d = 0, m
    while not d.isDynamic() or not isinstance(d, bf.Dynamic):
        off += d.npbase
        d = d._next
    n = 0
    for s in c["steps"]:
        if s == "vary":
            if hasattr(d, "vary") and d.isModifiable():
                n += bool(d.vary(rng=rng))
        else:
            n += bool(getattr(d, s)(offset=off, rng=rng))
            if hasattr(d, "location"): del d.location
    return n


def data(c, rng):
    n = c["n"]
    x = numpy.sort(rng.rand(n))
    x[0], x[-1] = 0.0, 1.0
    y = 1 + 2 * x + numpy.sin(5 * x) + 0.3 * rng.randn(n)
    w = None if c["w"] is None else rng.randint(0, 4, size=n) * 1.0 if c["w"] == "int" else rng.rand(n) * 2 + 0.2
    if c["w"] == "int": w[:8] = [1, 2, 1, 1, 3, 1, 2, 1]
    a = None if c["acc"] is None else 0.5 if c["acc"] == "one" else rng.rand(n) * 0.5 + 0.2
    return x, y, w, a


def evidence(c, m, x, y, w, a):
    """log evidence, best fit, scale"""
    n, q = len(x), m.npchain
    D = A([m.result(x, numpy.identity(q)[k]) for k in range(q)]).T
    w = numpy.ones(n) if w is None else w
    aa = numpy.ones(n) * (1.0 if a is None else a)
    fw = w / aa ** 2
    M = D * numpy.sqrt(fw)[:, None]
    sc = 1 / numpy.sqrt((M * M).sum(0))
    if not numpy.all(numpy.isfinite(sc)) or not numpy.linalg.cond(M * sc) < 1e4:
        raise Skip("ill conditioned")
    p = sc * numpy.linalg.lstsq(M * sc, y * numpy.sqrt(fw), rcond=None)[0]
    chi = numpy.sum(fw * (y - D @ p) ** 2)
    dof = w.sum() - q
    if dof < 1 or chi < 1e-3: raise Skip("no degrees of freedom left")
    s2 = chi / dof
    var = s2 if c["noise"] else c["scale"] ** 2
    z = -0.5 * (w.sum() * (L2PI + math.log(var)) + chi / var) - numpy.sum(w * numpy.log(aa))
    z += -q * math.log(c["lim"][1] - c["lim"][0]) + 0.5 * q * (L2PI + math.log(var)) - 0.5 * numpy.linalg.slogdet(M.T @ M)[1]
    if c["noise"]:
        z += 0.5 * math.log(math.pi / dof) - math.log(math.log(c["noise"][1] / c["noise"][0]))
    return z, p, math.sqrt(s2)


def distr(c, **kw):
    if c["noise"]: return bf.ModelDistribution(arbiter=c["arbiter"], limits=list(c["noise"]), **kw)
    return bf.ModelDistribution(arbiter=c["arbiter"], scale=c["scale"], **kw)


def near(a, b, tol, what):
    a, b = A(a, dtype=float), A(b, dtype=float)
    ok(a.shape == b.shape and numpy.all(numpy.abs(a - b) <= tol * (1 + numpy.max(numpy.abs(b)) if b.size else 1)), "%s is %s, expected %s" % (what, a, b))


def likelihood(c):
    rng = RandomState(c["seed"])
    m = model(c)
    ch = change(m, c, rng)
    x, y, w, a = data(c, rng)
    z, p, s = evidence(c, m, x, y, w, a)
    pb = bf.EvidenceProblem(model=m, xdata=x, ydata=y, weights=w, accuracy=a)
    d = distr(c)
    if rng.randint(2): d = d.copy()
    if rng.randint(3) == 0: pb = pb.copy()
    ap = numpy.append(rng.rand(m.npchain), 0.7)
    L = d.logLikelihood(pb, ap)
    t = 1e-6 if c["arbiter"] in (None, "fitter", "Fitter") else 2e-2
    near(L, z, t, "log likelihood")
    if t < 1e-3: near(ap[:-1], p, 1e-6, "parameters")
    near(ap[-1], s if c["noise"] else c["scale"], t, "scale")
    ok(numpy.array_equal(pb.ydata, y), "the data have changed")
    near(d.logLikelihood(pb, ap), z, t, "log likelihood once more")
    return dict(nontrivial=bool(c["w"] or c["acc"] or c["noise"] or c["chain"] or ch), features=[c["kind"], str(c["arbiter"])] + [k for k in ("w", "acc", "noise", "chain") if c[k]])


@st.composite
def ncase(draw):
    c = draw(case(arb=False))
    c["steps"], c["chain"] = [], draw(st.sampled_from(["", "", "before"]))
    c["N"] = draw(st.integers(5, 12))
    c["max"] = draw(st.integers(10, 40))
    c["name"] = draw(st.booleans())
    return c


def nested(c):
    rng = RandomState(c["seed"])
    m = model(c)
    x, y, w, a = data(c, rng)
    kw = dict(problem="evidence", xdata=x, ydata=y, weights=w, accuracy=a, model=m) if c["name"] else dict(problem=bf.EvidenceProblem(model=m, xdata=x, ydata=y, weights=w, accuracy=a))
    ns = bf.NestedSampler(distribution=distr(c), ensemble=c["N"], seed=c["seed"], verbose=0, **kw)
    ns.maximumIterations = c["max"]
    try:
        ns.sample()
    except ValueError as e:
        if "utside supplied limits" in str(e) or "Out of limits Prior" in str(e):
            raise Skip("best fit outside the limits")
        raise
    last, W, nc = -math.inf, 0, set()
    lo, hi = {"poly": (1, 6), "harm": (1, 9), "spline": (3, 8)}[c["kind"]]
    for s in ns.samples:
        q = A(s.parameters)
        if s.model is not None:
            ok(s.model.npchain == len(q), "sample with %d parameters has a model with %d" % (len(q), s.model.npchain))
        try:
            z, p, sd = evidence(c, s.model, x, y, w, a)
        except Skip:
            continue
        near(s.logL, z, 1e-6, "log likelihood of a sample with %d parameters" % len(q))
        near(q, p, 1e-6, "parameters of a sample")
        near(s.hyper[0], sd if c["noise"] else c["scale"], 1e-6, "scale of a sample")
        ok(s.logL >= last, "samples not ascending")
        last = s.logL
        nc.add(len(q))
        ok(lo <= len(q) - (1 if c["chain"] else 0) <= hi, "sample with %d parameters" % len(q))
    for s in ns.samples: W += math.exp(s.logW)
    ok(abs(W - 1) < 1e-6, "weights sum to %s" % W)
    return dict(nontrivial=len(nc) > 1, features=[c["kind"], c["chain"]])


@st.composite
def acase(draw):
    c = draw(case(arb=False))
    c.update(kind="spline", chain="", acc=None, arbiter="NestedSampler", start=draw(st.integers(0, 1)))
    c["steps"] = ["vary"]
    c["w"] = None if c["w"] == "int" else c["w"]
    c["scale"] = draw(fl(0.5, 2))
    c["lim"] = [draw(fl(-40, -20)), draw(fl(20, 60))]
    return c


def arbiter(c):
    rng = RandomState(c["seed"])
    m = model(c)
    change(m, c, rng)
    x, y, w, a = data(c, rng)
    z, p, s = evidence(c, m, x, y, w, a)
    pb = bf.EvidenceProblem(model=m, xdata=x, ydata=y, weights=w)
    N = 25
    d = distr(c, ensemble=N, engines=["gibbs", "chord"])
    ap = numpy.append(rng.rand(m.npchain), 0.7)
    L = d.logLikelihood(pb, ap)
    # information: prior volume over posterior volume, generously
    info = m.npchain * 4.0
    ok(abs(L - z) < 6 * math.sqrt(info / N) + (0.5 if c["noise"] else 0), "log evidence by NestedSampler is %s, expected %s" % (L, z))
    return dict(nontrivial=True, features=["free" if c["noise"] else "fixed"])


if __name__ == "__main__":
    sys.exit(main("C29", [Sub("likelihood", case(), likelihood, 300, 20000), Sub("nested", ncase(), nested, 14, 800), Sub("arbiter", acase(), arbiter, 3, 120)], RULE))
