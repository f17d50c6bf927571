import sys, io, contextlib
from env import *
from fits import *
from scipy.optimize import least_squares
import c13_iterative as it

RULE = ("Random (non-)linear model with data, any of the 13 fitters, keep given at construction or not, and a sequence of 2 to 5 fits, each with or without keep of "
        "random parameters at random values. Oracles: an independent least squares solution over the other parameters, the same fitter on the model with these "
        "parameters fixed, and a new fitter. Non-trivial: at least one fit with keep.")

FIX = {
    "gauss": lambda fx: bf.GaussModel(fixed=fx), "lorentz": lambda fx: bf.LorentzModel(fixed=fx), "exp": lambda fx: bf.ExpModel(fixed=fx),
    "arctan": lambda fx: bf.ArctanModel(fixed=fx), "sine": lambda fx: bf.SineModel(fixed=fx), "logistic": lambda fx: bf.LogisticModel(fixed=fx),
    "poly": lambda fx: bf.PolynomialModel(2, fixed=fx), "line": lambda fx: bf.PolynomialModel(1, fixed=fx),
}
LIN = ("poly", "line")
CLS = ["Fitter", "QRFitter", "LevenbergMarquardtFitter", "CurveFitter", "AmoebaFitter", "NelderMeadFitter", "BfgsFitter", "ConjugateGradientFitter",
       "NewtonCgFitter", "LbfgsbFitter", "TncFitter", "SlsqpFitter", "ScipyFitter"]
TIGHT = dict(LevenbergMarquardtFitter=dict(tolerance=1e-10), CurveFitter=dict(ftol=1e-12, xtol=1e-12, gtol=1e-12), Fitter={}, QRFitter={},
             AmoebaFitter=dict(tolerance=1e-9, maxiter=4000), NelderMeadFitter=dict(tolerance=1e-9))


@st.composite
def keepseq(draw, clss):
    cls = draw(st.sampled_from(clss))
    k = draw(st.sampled_from(LIN if cls in LINFIT else sorted(it.MODELS)))
    p = [draw(s) for s in it.MODELS[k][1]]
    npar = len(p)
    n = draw(st.integers(2 * npar + 4, 20))
    val = lambda i: round(p[i] * (1 + 0.06 * draw(fl(-1, 1))), 4)
    ks = st.sets(st.integers(0, npar - 1), min_size=1, max_size=max(1, npar - 1)).map(sorted)
    kp = lambda: {str(i): val(i) for i in draw(ks)} if npar > 1 else None
    c = dict(model=k, cls=cls, true=p, x=[round(v, 4) for v in numpy.linspace(-2, 2, n)], keep=kp() if draw(st.booleans()) else None, fits=[])
    c["kw"] = draw(st.sampled_from(["dict", "npint"]))
    for i in range(draw(st.integers(2, 5))):
        nz = draw(st.sampled_from([0.15, 0.3]))
        f = dict(noise=[(draw(fl(-1, 1)) + 0.4 * math.sin(13.7 * j * j + 0.3)) * nz for j in range(n)], keep=kp() if draw(st.booleans()) else None,
                 w=[draw(fl(0.3, 3)) for _ in range(n)] if draw(st.booleans()) else None, how=draw(st.sampled_from(["fit", "fit", "modelFit"])))
        c["fits"].append(f)
    return c


def reference(c, y, w, keep):
    x = A(c["x"])
    m = it.MODELS[c["model"]][0]()
    p0 = A(c["true"]).copy()
    for k, v in keep.items(): p0[k] = v
    fi = [k for k in range(len(p0)) if k not in keep]
    sw = numpy.ones(len(x)) if w is None else numpy.sqrt(A(w))

    def res(q):
        p = p0.copy()
        p[fi] = q
        return sw * (y - m.result(x, p))
    r = least_squares(res, p0[fi], xtol=1e-13, ftol=1e-13, gtol=1e-13)
    p0[fi] = r.x
    H = r.jac.T @ r.jac
    return p0, fi, 2 * r.cost, H


def seq(c):
    m = it.MODELS[c["model"]][0]()
    npar = m.npchain
    x = A(c["x"])
    cls = c["cls"]
    if cls == "AmoebaFitter" and npar < 2:
        raise Skip("amoeba of one parameter")
    key = numpy.int64 if c["kw"] == "npint" else int
    mk = lambda k: None if k is None else {key(a): b for a, b in k.items()}
    ck = mk(c["keep"])
    kw = {} if ck is None else dict(keep=ck)
    if cls not in ("CurveFitter", "Fitter", "QRFitter"): kw["verbose"] = 0
    opt = numpy.get_printoptions()
    with contextlib.redirect_stdout(io.StringIO()):
        ftr = getattr(bf, cls)(x, m, **kw)
    numpy.set_printoptions(**opt)
    base = it.MODELS[c["model"]][0]()
    true = A(c["true"])
    any_keep = False
    soft = cls not in ("Fitter", "QRFitter", "LevenbergMarquardtFitter", "CurveFitter")
    for i, f in enumerate(c["fits"]):
        y = base.result(x, true) + A(f["noise"])
        keep = kd(f["keep"]) if f["keep"] is not None else kd(c["keep"]) or {}
        any_keep |= bool(keep)
        t = "fit %d of %s with %s%s: " % (i, c["model"], cls, (" keep=%s" % keep) if keep else "")
        rp, fi, rc, H = reference(c, y, f["w"], keep)
        if numpy.linalg.cond(H) > 1e6:
            raise Skip("ill conditioned")
        m.parameters = true.copy()
        fw = dict(TIGHT.get(cls, dict(tolerance=1e-9 if cls in ("TncFitter", "LbfgsbFitter", "SlsqpFitter") else 1e-6))) if f["how"] == "fit" else {}
        user = mk(f["keep"])
        if user is not None: fw["keep"] = user
        w = None if f["w"] is None else A(f["w"])
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if f["how"] == "fit":
                    p = ftr.fit(y, weights=w, **fw)
                else:
                    r = ftr.modelFit(y, weights=w, **fw)
                    p = m.parameters
                    close(r, m.result(x, p), t + "modelFit", 1e-12)
            except bf.ConvergenceError:
                raise Skip("convergence error")
            except RuntimeError as e:
                if "Optimal parameters not found" in str(e): raise Skip("convergence error")
                raise
        numpy.set_printoptions(**opt)
        ok(user == mk(f["keep"]) and ck == mk(c["keep"]), t + "the keep dictionary of the user is changed")
        p = A(p)
        ok(p.shape == (npar,) and numpy.array_equal(p, m.parameters), t + "returned %s, model has %s" % (p, m.parameters))
        for k, v in keep.items():
            ok(p[k] == v, t + "kept parameter %d is %r in stead of %r" % (k, p[k], v))
        sig = numpy.zeros(npar)
        sig[fi] = numpy.sqrt(numpy.diag(numpy.linalg.inv(H)) * rc / max(1, len(x) - len(fi)))
        d = A([abs(p[k] - rp[k]) / sig[k] for k in fi])
        lim = 1.5 if f["how"] != "fit" else 0.3 if soft else 1e-3
        if soft and not getattr(getattr(ftr, "fulloutput", None), "success", True):
            return "not converged"
        ok(numpy.all(d < lim), t + "parameters %s, expected %s; standard deviations are %s" % (p, rp, sig))
        ok(ftr.npfit == len(fi), t + "npfit = %s, %d parameters are fitted" % (ftr.npfit, len(fi)))
        sumw = len(x) if w is None else numpy.sum(w)
        if sumw - len(fi) < 0.5:
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            sd = ftr.stdevs
        es = numpy.zeros(npar)
        es[fi] = numpy.sqrt(numpy.diag(numpy.linalg.inv(H)) * rc / (sumw - len(fi)))
        ok(len(sd) == npar and all((sd[k] == 0) == (k in keep) for k in range(npar)), t + "standard deviations %s with %s kept" % (sd, list(keep)))
        if f["how"] != "fit":
            continue
        ok(numpy.allclose(sd, es, rtol=0.1), t + "standard deviations %s, expected %s" % (sd, es))
        close(ftr.scale, math.sqrt(rc / (sumw - len(fi))), t + "scale", 0.02)
        ok(ftr.covariance.shape == (len(fi),) * 2, t + "covariance has shape %s" % (ftr.covariance.shape,))
        e = ftr.monteCarloError(x)
        ok(e.shape == x.shape and numpy.all(numpy.isfinite(e)), t + "error band %s" % e)
        # the model with these parameters fixed, in the same way
        if keep and c["model"] in FIX and f["how"] == "fit" and not (cls == "AmoebaFitter" and len(fi) < 2):
            mf = FIX[c["model"]](keep)
            mf.parameters = true[fi]
            with contextlib.redirect_stdout(io.StringIO()):
                ff = getattr(bf, cls)(x, mf, **({"verbose": 0} if "verbose" in kw else {}))
                fw.pop("keep", None)
                q = ff.fit(y, weights=w, **fw)
            numpy.set_printoptions(**opt)
            d = numpy.abs(A(q) - p[fi]) / sig[fi]
            ok(numpy.all(d < 2 * lim), t + "parameters %s; with a fixed model %s" % (p[fi], q))
            close(ff.chisq, ftr.chisq, t + "chisq with a fixed model", 1e-3)
            close(ff.scale, ftr.scale, t + "scale with a fixed model", 1e-3)
            ok(numpy.allclose(ff.stdevs, sd[fi], rtol=0.05), t + "standard deviations %s, with a fixed model %s" % (sd[fi], ff.stdevs))
            L = [[-50.0] * npar, [60.0] * npar]
            if f["w"] is None:
                close(ftr.getLogZ(limits=L, noiseLimits=[0.001, 10]), ff.getLogZ(limits=[[-50.0], [60.0]], noiseLimits=[0.001, 10]),
                      t + "evidence with a fixed model", 2e-2 if soft else 1e-3)
    return cls if any_keep else None


if __name__ == "__main__":
    sys.exit(main("C14", [
        Sub("linear", keepseq(CLS[:2]), seq, 150, 5000),
        Sub("lm", keepseq(CLS[2:3]), seq, 120, 4000),
        Sub("curve", keepseq(CLS[3:4]), seq, 120, 4000),
        Sub("others", keepseq(CLS[4:]), seq, 220, 6000),
    ], RULE))
