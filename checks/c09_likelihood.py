import sys, os
from env import *
from lik import *

RULE = ("Random problem (8 models, single and multiple output, cyclic output), error distribution (8, mixtures of any two), data, weights "
        "(none, integer with zeros, float; per point or per output) and accuracy (none, scalar of several types, per point); non-trivial: finite "
        "likelihood and at least one of weights, accuracy, more than one output, mixture, or a non-Gaussian distribution.")


def same(a, b, what, tol=1e-10):
    a, b = A(a), A(b)
    ok(a.shape == b.shape, "%s: shape %s, expected %s" % (what, a.shape, b.shape))
    with numpy.errstate(all="ignore"):
        fin = numpy.isfinite(b)
        ok(numpy.array_equal(fin, numpy.isfinite(a)) and numpy.array_equal(a[~fin], b[~fin]) and
           numpy.all(numpy.abs(a[fin] - b[fin]) <= tol * (1 + numpy.abs(b[fin]))),
           "%s: got %s, expected %s" % (what, a.tolist(), b.tolist()))


def run(c):
    L = Lik(c)
    if L.edge():
        raise Skip("at a discontinuity")
    ref = L.loglik()
    tot = numpy.sum(ref)
    allp, y0, x0 = L.allp.copy(), L.y.copy(), L.x.copy()
    w0 = None if L.w is None else L.w.copy()
    a0 = L.a.copy() if isinstance(L.a, numpy.ndarray) else L.a
    got = L.ed.logLikelihood(L.prob, L.allp)
    same(got, tot, "logLikelihood")
    same(A(L.ed.logLdata(L.prob, L.allp)).flatten() if numpy.ndim(L.ed.logLdata(L.prob, L.allp)) else L.ed.logLdata(L.prob, L.allp), ref, "logLdata")
    mock = L.prob.result(L.p)
    m0 = mock.copy()
    same(L.ed.logLdata(L.prob, L.allp, mockdata=mock), ref, "logLdata with mock data")
    ok(numpy.array_equal(mock, m0), "logLdata changed the mock data")
    # another point in between, and back: nothing is remembered
    L.ed.logLikelihood(L.prob, L.allp * 1.25)
    ok(L.ed.logLikelihood(L.prob, L.allp) == got or not math.isfinite(tot), "logLikelihood depends on the calls before it")
    if L.d not in ("poisson",) or numpy.all(m0 > 0):
        if L.d != "mixed":
            same(L.ed.logLikelihood_alt(L.prob, L.allp), tot, "logLikelihood_alt")
    same(L.ed.updateLogL(L.prob, L.allp), tot, "updateLogL")
    same(L.ed.copy().logLikelihood(L.prob.copy(), L.allp), tot, "copies")
    ok(numpy.array_equal(L.allp, allp) and numpy.array_equal(L.y, y0) and numpy.array_equal(L.x, x0) and
       (w0 is None or numpy.array_equal(L.w, w0)) and numpy.array_equal(L.a, a0), "parameters or data were changed")
    lab = L.d + ("/multi" if L.multi else "") + ("/w" if c["w"] is not None else "") + ("/" + c["ak"] if c["ak"] != "none" else "")
    return lab if math.isfinite(tot) and lab != "gauss" else None


def multiplicity(c):
    """weight n is n identical points; weight 0 is an absent point"""
    if c["w"] is None or c["d"] not in WEIGHTED or c["wsh"] == "full" or not all(isinstance(v, int) for v in c["w"]):
        raise Skip("no integer weights")
    if c["d"] == "mixed" and "cauchy" in (c["h"][0], c["h"][2]):
        raise Skip("mixture that does not accept weights")
    L = Lik(c)
    if L.edge():
        raise Skip("at a discontinuity")
    if sum(c["w"]) == 0:
        raise Skip("no data")
    ix = numpy.repeat(numpy.arange(L.n), c["w"])
    kw = dict(L.kw)
    kw.pop("weights")
    if isinstance(kw["accuracy"], numpy.ndarray):
        kw["accuracy"] = kw["accuracy"][ix]
    pr = L.cls(mdl(L.kind), xdata=L.x[ix], ydata=L.y[ix], **kw)
    same(L.ed.logLikelihood(L.prob, L.allp), L.ed.logLikelihood(pr, L.allp), "weights versus repeated points")
    fi = numpy.append(numpy.arange(L.np), -numpy.arange(len(L.hv), 0, -1))
    if numpy.isfinite(L.ed.logLikelihood(pr, L.allp)) and not (numpy.any(numpy.abs(L.resid(L.p)) < 1e-6)):
        same(L.ed.partialLogL(L.prob, L.allp, fi), L.ed.partialLogL(pr, L.allp, fi), "gradient: weights versus repeated points", 1e-4)
    return L.d + ("/zero" if 0 in c["w"] else "")


def hypers(c):
    """the hyperparameters of the distribution are those that were given"""
    ed = distof(c["d"], c["h"])
    hv = hlist(c["d"], c["h"])
    ok(ed.nphypar == len(hv) and numpy.allclose(ed.hypar, hv), "hyperparameters %s, given %s" % (ed.hypar, hv))
    if c["d"] in SCALED:
        ok(ed.scale == hv[0], "scale %s, given %s" % (ed.scale, hv[0]))
    same(A(ed.copy().hypar), A(hv), "hyperparameters of a copy")
    return c["d"]


def scalemax(c):
    """the scale a scaled distribution calculates from the residuals and its standard deviation"""
    if c["kind"] == "sm3": raise Skip("categories")
    L = Lik(c)
    r = L.resid(L.p)
    w = L.weights()
    w = numpy.ones(len(r)) if w is None else w
    if L.d in ("poisson", "cauchy", "bernoulli") and L.prob.weights is not None: raise Skip("weights")
    if numpy.sum(w) == 0 or numpy.sum(w * numpy.abs(r)) < 1e-3:
        raise Skip("no residuals")
    h0 = c["h"]
    if L.d == "cauchy" and not 0.01 < numpy.median(numpy.abs(r)) < 20:
        raise Skip("scale out of range")
    try:
        s = L.ed.getScale(L.prob, L.allp)
    except ValueError:
        if L.d == "cauchy":
            f = lambda t: numpy.sum(numpy.log(r * r + t * t)) - 2 * len(r) * math.log(2 * t)
            if f(0.001) * f(100.0) > 0: raise Skip("no scale")
        raise
    if L.prob.model is not None:
        L.prob.model.parameters = L.p
        if L.d == "expo": L.ed.hyperpar[1].hypar = h0[1]
        same(L.ed.getScale(L.prob), s, "scale for the parameters in the model")
    h = c["h"]
    if L.d == "gauss": e = math.sqrt(numpy.sum(w * r * r) / numpy.sum(w))
    elif L.d == "laplace": e = numpy.sum(w * numpy.abs(r)) / numpy.sum(w)
    elif L.d in ("uniform", "bernoulli"): e = numpy.max(numpy.abs(r))
    elif L.d == "poisson": e = math.sqrt(numpy.sum(w * r * r) / numpy.sum(w))
    elif L.d == "cauchy":
        e = s
        if 0.01 < s < 50:
            ok(abs(numpy.mean(numpy.log1p((r / s) ** 2)) - math.log(4)) < 1e-6, "the scale %g is not the one of a Cauchy distribution for residuals %s" % (s, r))
    else: e = (h[1] * numpy.sum(w * numpy.abs(r) ** h[1]) / numpy.sum(w)) ** (1 / h[1])
    same(s, e, "scale from the residuals")
    v = {"gauss": 1.0, "cauchy": 1.0, "poisson": 1.0, "bernoulli": 1 / math.sqrt(3), "laplace": math.sqrt(2), "uniform": 1 / math.sqrt(3)}.get(L.d)
    if L.d == "expo":
        same(L.ed.toSigma(h), h[0] * math.sqrt(special.gamma(3 / h[1]) / special.gamma(1 / h[1])), "toSigma")
    else:
        same(L.ed.toSigma(s), s * v, "toSigma")
    return L.d


if __name__ == "__main__":
    sys.exit(main("C09", [
        Sub("likelihood", likcase(), run, 500, 20000),
        Sub("likelihood_gauss", likcase(("gauss", "laplace")), run, 200, 8000),
        Sub("likelihood_mixed", likcase(("mixed",)), run, 250, 10000),
        Sub("likelihood_expo", likcase(("expo", "uniform", "cauchy")), run, 250, 10000),
        Sub("likelihood_counts", likcase(("poisson", "bernoulli")), run, 200, 8000),
        Sub("multiplicity", likcase(("gauss", "laplace", "uniform", "expo", "mixed")).filter(
            lambda c: c["w"] is not None and c["wsh"] == "flat" and all(isinstance(v, int) for v in c["w"])), multiplicity, 250, 8000),
        Sub("hyperparameters", likcase(), hypers, 100, 2000),
        Sub("scale", likcase(("gauss", "laplace", "uniform", "expo", "cauchy", "poisson", "bernoulli")), scalemax, 250, 5000),
    ], RULE))
