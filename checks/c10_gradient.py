import sys, os
from env import *
from lik import *

RULE = ("Random problem, error distribution (8 kinds, mixtures of any two), data, weights, accuracy and a random selection and order of the "
        "fitted parameters and hyperparameters; non-trivial: finite likelihood and at least one selected parameter with a non-zero derivative; the curvature of linear models against differences of the gradient.")


def findex(L, code):
    """random subset and order of parameters, then of hyperparameters"""
    import random
    r = random.Random(code)
    n, h = L.np, len(L.hv)
    pi = list(range(n))
    hi = list(range(-h, 0))
    mode = r.randrange(4)
    if mode == 0: return pi + hi
    if mode == 1: return pi
    k = r.randrange(n + 1)
    m = r.randrange(h + 1)
    pi = r.sample(pi, k)
    hi = r.sample(hi, m)
    return (pi + hi if mode == 2 else sorted(pi) + sorted(hi)) or [0]


def numgrad(f, q, k):
    """Richardson with error estimate; f returns an array"""
    s = 3e-3 * (1 + abs(q[k])) / 2

    def d(st_):
        a, b = q.copy(), q.copy()
        a[k] += st_
        b[k] -= st_
        return (f(a) - f(b)) / (2 * st_)
    t = [d(s / 4 ** i) for i in range(4)]
    e = [(4 ** 2 * t[i + 1] - t[i]) / (4 ** 2 - 1) for i in range(3)]
    e2 = [(4 ** 4 * e[i + 1] - e[i]) / (4 ** 4 - 1) for i in range(2)]
    return e2[1], numpy.abs(e2[1] - e2[0]) + numpy.abs(e[2] - e2[1])


def run(c):
    L = Lik(c)
    if L.edge():
        raise Skip("at a discontinuity")
    ref = L.loglik()
    if not numpy.all(numpy.isfinite(ref)):
        raise Skip("zero likelihood")
    if c["d"] == "mixed" and not 0.02 < c["h"][4] < 0.98:
        raise Skip("fraction at its limit")
    hh = [(c["d"], c["h"])] if c["d"] != "mixed" else [(c["h"][0], c["h"][1]), (c["h"][2], c["h"][3])]
    if c["d"] not in ("poisson", "bernoulli"):
        r = numpy.abs(L.resid(L.p))
        for d, h in hh:
            if d in ("laplace", "expo") and numpy.any(r < 0.03) and not (d == "expo" and h[1] >= 3):
                raise Skip("near the cusp at zero residual")
            if d == "uniform":
                s = h[0] if L.a is None else expand(L.a, L.n, L.nofl())
                if numpy.any(numpy.abs(r - s) < 0.05):
                    raise Skip("near the edge of the uniform distribution")
    if c["d"] == "poisson" and numpy.any(L.model.result(L.x, L.p) < 0.05):
        raise Skip("expectation near zero")
    if c["kind"] == "orb" and numpy.any(numpy.abs(numpy.abs(L.resid(L.p)) - math.pi) < 0.1):
        raise Skip("near the edge of the period")
    if c["kind"] == "cyc" and numpy.any(numpy.abs(numpy.abs(L.resid(L.p)) - 1) < 0.1):
        raise Skip("near the edge of the period")
    fi = findex(L, c["fi"])
    allp = L.allp.copy()
    n = len(allp)
    idx = [k if k >= 0 else n + k for k in fi]
    got = L.ed.partialLogL(L.prob, L.allp, numpy.asarray(fi))
    ok(numpy.array_equal(L.allp, allp), "partialLogL changed the parameters")
    got = A(got)
    ok(got.shape == (len(fi),), "shape of the gradient %s for fitindex %s" % (got.shape, fi))
    pd = [A(v) + numpy.zeros(len(ref)) for v in L.ed.nextPartialData(L.prob, L.allp, numpy.asarray(fi))]
    mock = L.prob.result(L.p)
    pm = [A(v) + numpy.zeros(len(ref)) for v in L.ed.nextPartialData(L.prob, L.allp, fi, mockdata=mock)]
    alt = A(L.ed.partialLogL_alt(L.prob, L.allp, numpy.asarray(fi))) if c["d"] != "mixed" else None
    num = A(L.ed.numPartialLogL(L.prob, L.allp, numpy.asarray(fi)))
    nz = False
    for j, k in enumerate(idx):
        e, err = numgrad(L.loglik, allp, k)
        if not numpy.all(numpy.isfinite(e)):
            raise Skip("likelihood not finite nearby")
        tol = 2e-5 * (1 + numpy.abs(e)) + 10 * err
        if numpy.max(tol) > 1e-2 * (1 + numpy.max(numpy.abs(e))):
            raise Skip("reference gradient not accurate")
        ok(numpy.all(numpy.abs(pd[j] - e) <= tol), "per point gradient to parameter %d (%d of %s): got %s, expected %s" %
           (fi[j], j, fi, pd[j].tolist(), e.tolist()))
        ok(numpy.all(numpy.abs(pm[j] - e) <= tol), "per point gradient (mock data) to parameter %d: got %s, expected %s" % (fi[j], pm[j].tolist(), e.tolist()))
        t, tt = numpy.sum(e), numpy.sum(tol)
        ok(abs(got[j] - t) <= tt, "gradient to parameter %d (%d of %s): got %g, expected %g" % (fi[j], j, fi, got[j], t))
        ok(abs(got[j] - numpy.sum(pd[j])) <= 1e-9 * (1 + numpy.sum(numpy.abs(pd[j]))), "gradient is not the sum of the per point gradients")
        if alt is not None:
            ok(abs(alt[j] - t) <= tt, "alternative gradient to parameter %d (%d of %s): got %g, expected %g" % (fi[j], j, fi, alt[j], t))
        ok(abs(num[j] - t) <= tt + 1e-3 * (1 + numpy.sum(numpy.abs(e))), "numeric gradient to parameter %d: got %g, expected %g" % (fi[j], num[j], t))
        nz = nz or abs(t) > 1e-6
    return (L.d + ("/multi" if L.multi else "") + ("/w" if c["w"] is not None else "") + ("/a" if c["a"] is not None else "")) if nz else None


def fallback(c):
    """partialLogL falls back on the numeric gradient silently: it may not do so for these distributions"""
    L = Lik(c)
    if L.edge():
        raise Skip("at a discontinuity")
    fi = findex(L, c["fi"])
    cnt = []
    L.ed.__dict__["numPartialLogL"] = lambda *a: cnt.append(1) or numpy.zeros(len(fi))
    L.ed.partialLogL(L.prob, L.allp, numpy.asarray(fi))
    ok(not cnt, "the analytic gradient failed, numeric differences were used")
    return L.d


def curvature(c):
    """hessianLogL of linear models is the derivative of the gradient"""
    L = Lik(c)
    import random
    r = random.Random(c["fi"])
    n = L.np
    fi = r.sample(range(n), r.randrange(1, n + 1))
    full = fi + ([n] if r.randrange(2) else [])
    H = A(L.ed.hessianLogL(L.prob, L.allp, numpy.asarray(full)))
    ok(H.shape == (len(full), len(full)), "shape of the hessian is %s" % (H.shape,))
    for i, k in enumerate(fi):
        a, b = L.allp.copy(), L.allp.copy()
        a[k] += 0.5
        b[k] -= 0.5
        g = A(L.ed.partialLogL(L.prob, a, numpy.asarray(fi))) - A(L.ed.partialLogL(L.prob, b, numpy.asarray(fi)))
        s = 1 + numpy.max(numpy.abs(g))
        ok(numpy.all(numpy.abs(H[i, :len(fi)] - g) < 1e-7 * s), "row %d of the hessian is %s, expected %s" % (i, H[i], g))
    if len(full) > len(fi):
        ok(not H[len(fi), :len(fi)].any() and not H[:len(fi), len(fi)].any(), "hessian between parameters and scale")
    return "w" if c["w"] is not None else "a" if c["a"] is not None else None


ALL = ("gauss", "laplace", "cauchy", "uniform", "expo", "poisson", "bernoulli", "mixed")
if __name__ == "__main__":
    sys.exit(main("C10", [
        Sub("gradient", likcase(ALL, grad=True), run, 400, 16000),
        Sub("gradient_gauss", likcase(("gauss", "laplace"), grad=True), run, 200, 8000),
        Sub("gradient_cauchy", likcase(("cauchy", "uniform"), grad=True), run, 200, 8000),
        Sub("gradient_expo", likcase(("expo",), grad=True), run, 250, 8000),
        Sub("gradient_counts", likcase(("poisson", "bernoulli"), grad=True), run, 250, 8000),
        Sub("gradient_mixed", likcase(("mixed",), grad=True), run, 300, 12000),
        Sub("curvature", likcase(("gauss",), grad=True, kinds=["poly"]), curvature, 200, 8000),
        Sub("no_fallback", likcase(ALL, grad=True), fallback, 200, 4000),
    ], RULE))
