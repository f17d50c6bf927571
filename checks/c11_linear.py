import sys
from env import *
from fits import *

RULE = ("Random linear model (polynomials, Chebyshev, harmonics, splines, surfaces, with fixed parameters and constants, compounds, brackets), data "
        "(float, int, list), weights (none, integer, zeros, float, wide range), accuracy (none, scalar, per point), kept parameters (for life, for "
        "one fit), normalization constraints and up to 4 fits with one fitter; non-trivial: weights, accuracy, keep, constraints or more than 1 fit.")


def mk(c, cls, m):
    kw = {} if c["keep"] is None else dict(keep=kd(c["keep"]))
    f = getattr(bf, cls)(A(c["x"]), m, **kw)
    for g, v, w in c["norm"]:
        f.normalize(A(g), v, weight=w)
    return f


def label(c):
    f = c["fits"]
    l = [k for k, b in (("w", any(v["w"] for v in f)), ("a", any(v["a"] for v in f)), ("keep", c["keep"] or any(v["keep"] for v in f)),
                        ("norm", c["norm"]), ("re", len(f) > 1)) if b]
    return "/".join(l) or None


def run(c, cls, fitargs={}):
    m = build(c["parts"], c["br"])
    if m.npchain == 0:
        raise Skip("no parameters")
    m.parameters = A(c["p0"])
    ftr = mk(c, cls, m)
    for i, f in enumerate(c["fits"]):
        keep = kd(f["keep"]) if f["keep"] is not None else kd(c["keep"])
        ref = Ref(c, f, keep)
        y, w, a = arrays(f)
        y0, w0, a0 = numpy.array(y).copy(), numpy.array(w), numpy.array(a)
        kw = dict(fitargs)
        if f["keep"] is not None: kw["keep"] = kd(f["keep"])
        if a is not None: kw["accuracy"] = a
        p = ftr.fit(y, weights=w, **kw)
        t = "fit %d with %s: " % (i, cls)
        tol = 1e-8 * max(1.0, ref.cond if ref.fi else 1.0)
        close(p, ref.p, t + "parameters", tol)
        close(m.parameters, ref.p, t + "parameters in the model", tol)
        close(ftr.parameters, ref.p, t + "parameters in the fitter", tol)
        close(ftr.chisq, ref.chisq, t + "chisq", 1e-7)
        close(ftr.yfit, ref.y - ref.res, t + "yfit", tol * 10)
        close(m(ftr.xdata), ref.y - ref.res, t + "model", tol * 10)
        for k, v in (keep or {}).items():
            ok(p[k] == v, t + "kept parameter %d is %r, not %r" % (k, p[k], v))
        ok(numpy.array_equal(y0, numpy.array(y)) and numpy.array_equal(w0, numpy.array(w)) and numpy.array_equal(a0, numpy.array(a)),
           t + "data, weights or accuracy of the user changed")
    return label(c)


def mult(c, cls):
    """weight n is n copies, weight 0 is absence"""
    f = c["fits"][0]
    if f["wk"] not in ("int", "zero"):
        raise Skip("no integer weights")
    keep = kd(c["keep"])
    ref = Ref(dict(c, norm=[]), f, keep)
    m = build(c["parts"], c["br"])
    y, w, a = arrays(f)
    kw = {} if keep is None else dict(keep=keep)
    f1 = getattr(bf, cls)(A(c["x"]), m, **kw)
    k2 = {} if a is None else dict(accuracy=a)
    p1 = f1.fit(y, weights=w, **k2)
    ix = numpy.repeat(numpy.arange(len(c["x"])), f["w"])
    m2 = build(c["parts"], c["br"])
    f2 = getattr(bf, cls)(A(c["x"])[ix], m2, **kw)
    if isinstance(f["a"], list): k2 = dict(accuracy=A(f["a"])[ix])
    p2 = f2.fit(numpy.asarray(y)[ix], **k2)
    tol = 1e-8 * max(1.0, ref.cond)
    close(p1, p2, "weights versus repeated points: parameters", tol)
    close(f1.chisq, f2.chisq, "weights versus repeated points: chisq", 1e-7)
    if ref.dof > 0:
        close(f1.scale, f2.scale, "weights versus repeated points: scale", 1e-7)
        close(f1.stdevs, f2.stdevs, "weights versus repeated points: stdevs", tol)
        lim = dict(limits=[-20.0, 20.0])
        close(f1.getLogZ(**lim), f2.getLogZ(**lim), "weights versus repeated points: evidence", 1e-7)
        lim = dict(limits=[-20.0, 20.0], noiseLimits=[0.01, 10.0])
        close(f1.getLogZ(**lim), f2.getLogZ(**lim), "weights versus repeated points: evidence with noise", 1e-7)
    return f["wk"]


if __name__ == "__main__":
    sys.exit(main("C11", [
        Sub("fitter", problem(1, norms=True), lambda c: run(c, "Fitter"), 300, 12000),
        Sub("qrfitter", problem(1, norms=True), lambda c: run(c, "QRFitter"), 300, 12000),
        Sub("fitter_again", problem(4, norms=True), lambda c: run(c, "Fitter"), 250, 10000),
        Sub("qrfitter_again", problem(4, norms=True), lambda c: run(c, "QRFitter"), 250, 10000),
        Sub("multiplicity", problem(1).filter(lambda c: c["fits"][0]["wk"] in ("int", "zero")), lambda c: mult(c, "Fitter"), 150, 6000),
        Sub("multiplicity_qr", problem(1).filter(lambda c: c["fits"][0]["wk"] in ("int", "zero")), lambda c: mult(c, "QRFitter"), 150, 6000),
    ], RULE))
