import sys, io, contextlib
from env import *
from fits import *
from scipy.optimize import minimize, least_squares
from scipy.special import gammaln, gamma

RULE = ("Random non-linear models (Gauss, Lorentz, exponential, arctan, sine, power law, logistic, sums with polynomials, products, linear ones) with data generated "
        "from the model plus noise, weights, accuracies, kept parameters, limits, initial parameters in the model or as argument, 1 to 3 fits with one fitter, "
        "every iterative fitter and error distribution. Non-trivial: the start is not the end.")

SIMPLEX = ["AmoebaFitter", "NelderMeadFitter", "PowellFitter", "CobylaFitter"]
GRAD = ["LevenbergMarquardtFitter", "CurveFitter", "ConjugateGradientFitter", "BfgsFitter", "NewtonCgFitter", "LbfgsbFitter", "TncFitter",
        "SlsqpFitter", "DoglegFitter", "TrustNcgFitter", "ScipyFitter"]

MODELS = {
    "gauss": (lambda: bf.GaussModel(), [fl(1, 3), fl(-0.5, 0.5), fl(0.4, 1)]),
    "lorentz": (lambda: bf.LorentzModel(), [fl(1, 3), fl(-0.5, 0.5), fl(0.4, 1)]),
    "exp": (lambda: bf.ExpModel(), [fl(0.5, 3), fl(-0.8, 0.8)]),
    "arctan": (lambda: bf.ArctanModel(), [fl(1, 3), fl(-0.3, 0.3), fl(1, 3)]),
    "sine": (lambda: bf.SineModel(), [fl(0.15, 0.25), fl(1, 2), fl(1, 2)]),
    "logistic": (lambda: bf.LogisticModel(), [fl(1, 3), fl(-0.3, 0.3), fl(1.5, 3)]),
    "gaussp": (lambda: bf.GaussModel() + bf.PolynomialModel(0), [fl(2, 3), fl(-0.5, 0.5), fl(0.4, 0.7), fl(-1, 1)]),
    "expp": (lambda: bf.PolynomialModel(0) + bf.ExpModel(), [fl(-1, 1), fl(1, 3), fl(0.6, 1.2)]),
    "prod": (lambda: bf.PolynomialModel(0) * bf.GaussModel(fixed={0: 1.0}), [fl(1, 3), fl(-0.3, 0.3), fl(0.6, 1)]),
    "gfix": (lambda: bf.GaussModel(fixed={1: 0.1}), [fl(1, 3), fl(0.4, 1)]),
    "poly": (lambda: bf.PolynomialModel(2), [fl(-2, 2)] * 3),
    "line": (lambda: bf.PolynomialModel(1), [fl(-2, 2)] * 2),
    "brack": (lambda: bf.PolynomialModel(0) + bf.BracketModel(bf.ExpModel()), [fl(-1, 1), fl(1, 3), fl(0.6, 1.2)]),
}


@st.composite
def nlprob(draw, clss, dists=("chisq",), keeps=True):
    k = draw(st.sampled_from(sorted(MODELS)))
    p = [draw(s) for s in MODELS[k][1]]
    npar = len(p)
    n = draw(st.integers(2 * npar + 3, 22))
    x = [round(v, 4) for v in numpy.linspace(-2, 2, n)]
    c = dict(model=k, true=p, x=x, cls=draw(st.sampled_from(clss)), dist=draw(st.sampled_from(list(dists))), fits=[])
    c["scale"] = draw(st.sampled_from([None, None, 0.5, 2.0])) if len(dists) > 1 else None
    c["power"] = draw(st.sampled_from([2.0, 2.0, 1.5, 3.0])) if len(dists) > 1 else None
    c["keep"] = None
    kp = st.dictionaries(st.integers(0, npar - 1), st.just(0), min_size=1, max_size=npar - 1).map(sorted)
    nk = st.one_of(st.none(), st.none(), kp) if keeps else st.none()
    kd0 = draw(nk)
    c["keep"] = None if kd0 is None else {str(i): round(p[i] * 1.05, 4) for i in kd0}
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        nz = draw(st.sampled_from([0.02, 0.1, 0.3]))
        noise = [(draw(fl(-1, 1)) + 0.4 * math.sin(13.7 * k * k + 0.3)) * nz for k in range(n)]
        wk = draw(st.sampled_from(["none", "none", "float", "int", "list"]))
        w = None
        if wk in ("float", "list"): w = [draw(fl(0.3, 3)) for _ in range(n)]
        if wk == "int": w = [draw(st.integers(1, 3)) for _ in range(n)]
        ak = draw(st.sampled_from(["none", "none", "scalar", "array", "list"]))
        a = None if ak == "none" else draw(fl(0.3, 2)) if ak == "scalar" else [draw(fl(0.3, 2)) for _ in range(n)]
        kk = draw(nk)
        c["fits"].append(dict(noise=noise, w=w, wk=wk, a=a, ak=ak, keep=None if kk is None else {str(i): round(p[i] * 1.03, 4) for i in kk},
                              par0=draw(st.sampled_from(["model", "arg", "list"])),
                              start=[round(v * (1 + 0.12 * draw(fl(-1, 1))) + 0.03 * draw(fl(-1, 1)), 5) for v in p]))
    return c


def objective(c, m, y, w, a):
    """independent objective: what the fit has to minimise"""
    x = A(c["x"])
    w = numpy.ones(len(x)) if w is None else A(w)
    given = a is not None
    a = numpy.ones(len(x)) * (1.0 if a is None else A(a))
    fw = w / a ** 2
    mm = MODELS[c["model"]][0]()
    d = c["dist"]
    s = 1.0 if given and d != "gauss" else c.get("scale") or 1.0      # accuracies replace the scale

    def chisq(p):
        return float(numpy.sum(fw * (y - mm.result(x, p)) ** 2))

    def func(p):
        r = y - mm.result(x, p)
        if d == "chisq": return float(numpy.sum(fw * r * r))
        if d == "poisson":
            f = mm.result(x, p)
            return float(numpy.sum(w * (f - y * numpy.log(f) + gammaln(y + 1)))) if numpy.all(f > 0) else math.inf
        if d == "gauss": return float(0.5 * numpy.sum(fw * r * r) / s**2 + (0.5 * math.log(2 * math.pi) + math.log(s)) * numpy.sum(fw))
        if d == "laplace": return float(numpy.sum(w * numpy.abs(r) / a) / s + numpy.sum(w * numpy.log(2 * a * s)))
        if d == "cauchy": return float(numpy.sum(numpy.log(a * a * s * s + r * r)) + numpy.sum(numpy.log(math.pi / (a * s))))
        if d == "exponential":
            q = c["power"] or 2.0
            return float(numpy.sum(w * (numpy.abs(r) / (a * s)) ** q) + numpy.sum(w * numpy.log(a * s) + w * (math.log(2 / q) + gammaln(1 / q))))
        raise ValueError(d)
    return func, chisq


POS = ["exp", "gaussp", "expp"]
QUIET = io.StringIO()
TIGHT = dict(LevenbergMarquardtFitter=dict(tolerance=1e-10), CurveFitter=dict(ftol=1e-12, xtol=1e-12, gtol=1e-12),
             AmoebaFitter=dict(tolerance=1e-9, maxiter=4000), CobylaFitter=dict(tolerance=1e-8, maxiter=20000))


def run(c):
    m = MODELS[c["model"]][0]()
    npar = m.npchain
    x = A(c["x"])
    if c["cls"] == "AmoebaFitter" and npar < 2:
        raise Skip("amoeba of one parameter")
    if c["dist"] == "poisson":              # positive expectations, no accuracies
        if c["model"] not in POS:
            c = dict(c, model=POS[len(c["x"]) % len(POS)])
            n = len(MODELS[c["model"]][1])
            if n > len(c["true"]): raise Skip("not positive")
            c = dict(c, true=c["true"][:n], keep=None, fits=[dict(f, start=f["start"][:n], keep=None) for f in c["fits"]])
            m = MODELS[c["model"]][0]()
            npar = n
        fix = lambda p: [abs(v) + 0.5 if (c["model"], k) in (("exp", 0), ("gaussp", 0), ("gaussp", 2), ("gaussp", 3), ("expp", 0), ("expp", 1)) else (v + 0.5) / 10 if k else v for k, v in enumerate(p)]
        c = dict(c, true=fix(c["true"]), keep=None, fits=[dict(f, w=None, wk="none", a=None, ak="none", keep=None, start=fix(f["start"])) for f in c["fits"]])
    if c["dist"] == "cauchy":               # no weights
        c = dict(c, fits=[dict(f, w=None, wk="none") for f in c["fits"]])
    ck = kd(c["keep"])
    kw = {} if ck is None else dict(keep=ck)
    if c["dist"] != "chisq":
        kw["errdis"] = c["dist"]
        if c.get("scale") and c["dist"] != "poisson": kw["scale"] = c["scale"]
        if c.get("power") and c["dist"] == "exponential": kw["power"] = c["power"]
    with contextlib.redirect_stdout(io.StringIO()):
        opt = numpy.get_printoptions()
        ftr = getattr(bf, c["cls"])(x, m, verbose=0, **kw) if c["cls"] != "CurveFitter" else bf.CurveFitter(x, m, **kw)
        numpy.set_printoptions(**opt)
    if c["cls"] == "NewtonCgFitter" and c["dist"] not in ("chisq", "gauss"):
        raise Skip("no hessian of this error distribution")
    if c["cls"] == "DoglegFitter" and c["model"] not in ("poly", "line", "exp"):
        raise Skip("dogleg needs a positive definite hessian")
    lab = None
    base = MODELS[c["model"]][0]()
    true = A(c["true"])
    for i, f in enumerate(c["fits"]):
        y = base.result(x, true) + A(f["noise"])
        if c["dist"] == "poisson":
            y = numpy.floor(numpy.abs(base.result(x, true) * 3 + 8 * A(f["noise"])))
        w = f["w"] if f["wk"] in ("list", "none") else numpy.asarray(f["w"])
        a = f["a"] if f["ak"] != "array" else A(f["a"])
        keep = kd(f["keep"]) if f["keep"] is not None else ck
        keep = keep or {}
        func, chisq = objective(c, m, y, f["w"], f["a"])
        start = A(f["start"])
        full = start.copy()
        for k, v in keep.items(): full[k] = v
        fw = dict(TIGHT.get(c["cls"], dict(tolerance=1e-9 if c["cls"] in SIMPLEX else 1e-6)))
        s0 = numpy.array(start)
        if f["par0"] == "model":
            m.parameters = start.copy()
        else:
            m.parameters = true * 1.3 + 0.2
            fw["inipar" if c["cls"] == "CurveFitter" else "par0"] = start if f["par0"] == "arg" else start.tolist()
        if f["keep"] is not None: fw["keep"] = kd(f["keep"])
        if a is not None: fw["accuracy"] = a
        t = "fit %d with %s (%s): " % (i, c["cls"], c["dist"])
        y0, w0, a0 = y.copy(), numpy.array(w).copy(), numpy.array(a).copy()
        import warnings as W
        with contextlib.redirect_stdout(io.StringIO()), W.catch_warnings(record=True) as ww:
            W.simplefilter("always")
            try:
                p = ftr.fit(y, weights=w, **fw)
            except bf.ConvergenceError:
                raise Skip("convergence error")
            except RuntimeError as e:
                if "Optimal parameters not found" in str(e): raise Skip("convergence error")
                raise
            except numpy.linalg.LinAlgError as e:
                if c["cls"] in ("DoglegFitter",): raise Skip("hessian not positive")
                raise
        numpy.set_printoptions(**opt)
        ok(numpy.array_equal(y, y0) and numpy.array_equal(w0, numpy.array(w)) and numpy.array_equal(a0, numpy.array(a)) and numpy.array_equal(s0, start),
           t + "data, weights, accuracy or initial parameters of the user are changed")
        p = A(p)
        ok(p.shape == (npar,), t + "%d parameters returned" % len(p))
        ok(numpy.array_equal(p, m.parameters), t + "returned %s, model has %s" % (p, m.parameters))
        for k, v in keep.items():
            ok(p[k] == v, t + "kept parameter %d is %r in stead of %r" % (k, p[k], v))
        val = func(p)
        ini = func(full)
        ok(val <= ini * (1 + 1e-12) + 1e-12, t + "ends at %g, started at %g" % (val, ini))
        if c["dist"] == "chisq":
            close(ftr.chisq, val, t + "chisq", 1e-9)
        else:
            close(-ftr.logLikelihood, val, t + "logLikelihood", 1e-9)
            close(ftr.chisq, chisq(p), t + "chisq", 1e-9)
        if c["dist"] in ("laplace", "exponential", "gauss", "poisson") and f["w"] is None and f["a"] is None:
            r = numpy.abs(y - base.result(x, p))
            q = {"laplace": 1.0, "exponential": c.get("power") or 2.0}.get(c["dist"], 2.0)
            e = (q * numpy.mean(r ** q)) ** (1 / q) * math.sqrt(gamma(3 / q) / gamma(1 / q))
            with contextlib.redirect_stdout(io.StringIO()):
                sc = ftr.scale
            close(sc, e, t + "scale of the noise", 1e-7)
            close(func(p), val, t + "likelihood after asking the scale", 1e-12)
            with contextlib.redirect_stdout(io.StringIO()):
                la = ftr.getLogLikelihood(autoscale=True)
            if c["dist"] != "poisson":
                fs, _ = objective(dict(c, scale=e if c["dist"] == "gauss" else (q * numpy.mean(r ** q)) ** (1 / q)), m, y, None, None)
                close(-la, fs(p), t + "likelihood with the scale optimised", 1e-7)
            close(-ftr.getLogLikelihood(), val, t + "getLogLikelihood", 1e-9)
        sd = None
        fi = [k for k in range(npar) if k not in keep]
        ok(ftr.npfit == len(fi), t + "npfit %s, %d parameters fitted" % (ftr.npfit, len(fi)))
        if any("aximum number" in str(v.message) for v in ww) or getattr(getattr(ftr, "fulloutput", None), "success", True) is False:
            lab = "not converged"
            continue
        # local polish
        if c["dist"] in ("laplace",):
            lab = lab or "start"
            continue

        def fun(q):
            z = p.copy()
            z[fi] = q
            return func(z)
        # gain of the Newton step, one direction at a time and all together
        h = 1e-4
        e = numpy.eye(len(fi)) * h
        f0 = fun(p[fi])
        gr = A([(fun(p[fi] + e[k]) - fun(p[fi] - e[k])) / (2 * h) for k in range(len(fi))])
        D = MODELS[c["model"]][0]().numPartial(x, p)[:, fi]
        wt = (1.0 if f["w"] is None else A(f["w"])) / (1.0 if f["a"] is None else A(f["a"])) ** 2 * numpy.ones(len(x))
        H = (D * wt[:, None]).T @ D * (1.0 if c["dist"] in ("gauss", "cauchy") else 2.0)
        sc = numpy.sqrt(numpy.diag(H))
        gain = float(numpy.max(gr ** 2 / numpy.diag(H)) / 2)
        ok(gain <= LOOSE.get(c["cls"], 2e-4) * (1 + abs(ini - val)) + 1e-6, t + "is not in a stationary point at %s with %r; the gradient is %s" % (p, val, gr))
        if ini - val > 1e-4: lab = c["cls"] + "/" + c["dist"]
        if c["dist"] in ("chisq",) and ftr.sumwgt > npar + 1:
            with contextlib.redirect_stdout(io.StringIO()):
                s = ftr.stdevs
            ok(len(s) == npar and all((s[k] == 0) == (k in keep) for k in range(npar)), t + "standard deviations %s with %s kept" % (s, list(keep)))
    return lab


@st.composite
def limprob(draw):
    c = draw(nlprob(["CurveFitter", "AmoebaFitter", "LbfgsbFitter", "TncFitter", "SlsqpFitter", "LevenbergMarquardtFitter"], keeps=False))
    c["fits"] = c["fits"][:1]
    f = c["fits"][0]
    npar = len(c["true"])
    f["start"] = c["true"]
    f["par0"] = "model"
    if draw(st.booleans()):
        f["keep"] = {str(draw(st.integers(0, npar - 1))): None} if npar > 1 else None
        if f["keep"]:
            k = int(list(f["keep"])[0])
            f["keep"] = {str(k): c["true"][k]}
    lim = [[], []]
    for k in range(npar):
        d = draw(st.sampled_from([0.02, 0.1, 1.0, 1e3]))
        lim[0].append(round(c["true"][k] - d * draw(fl(0.3, 1)), 5))
        lim[1].append(round(c["true"][k] + d * draw(fl(0.3, 1)), 5))
    one = draw(st.integers(0, 4)) == 0
    if one:
        lim = [min(c["true"]) - 0.02, max(c["true"]) + 0.02]
    c["lim"] = lim
    c["prior"] = (c["cls"] == "LevenbergMarquardtFitter" or c["cls"] == "CurveFitter" and draw(st.booleans())) and not one
    if c["cls"] == "LevenbergMarquardtFitter" and one: c["cls"] = "CurveFitter"
    c["nopri"] = draw(st.booleans())
    return c


def limits(c):
    """parameters stay within the limits, given as argument or in the model"""
    m = MODELS[c["model"]][0]()
    npar = m.npchain
    x = A(c["x"])
    f = c["fits"][0]
    if c["cls"] == "AmoebaFitter" and npar < 2:
        raise Skip("amoeba of one parameter")
    y = m.result(x, A(c["true"])) + A(f["noise"]) * 2
    m.parameters = A(c["true"])
    lo, hi = numpy.zeros(npar) + c["lim"][0], numpy.zeros(npar) + c["lim"][1]
    kw = {}
    first = 0
    if c["prior"]:
        if c["nopri"] and m._next is not None and not isinstance(m, bf.BracketModel):
            first = m.npbase                    # limits on the last models only
            for k in range(first, npar): m.setPrior(k, prior=bf.UniformPrior(limits=[lo[k], hi[k]]))
        else:
            m.setLimits(lo, hi)
    else:
        kw["limits"] = c["lim"]
    if f["keep"] is not None: kw["keep"] = kd(f["keep"])
    w = None if f["w"] is None else A(f["w"])
    with contextlib.redirect_stdout(io.StringIO()):
        opt = numpy.get_printoptions()
        ftr = getattr(bf, c["cls"])(x, m, **({} if c["cls"] == "CurveFitter" else dict(verbose=0)))
        numpy.set_printoptions(**opt)
        try:
            p = ftr.fit(y, weights=w, **kw)
        except bf.ConvergenceError:
            raise Skip("convergence error")
    e = 1e-9
    for k in range(first, npar):
        ok(lo[k] - e <= p[k] <= hi[k] + e, "%s: parameter %d = %r is outside limits %r %r" % (c["cls"], k, p[k], lo[k], hi[k]))
    for k, v in (kd(f["keep"]) or {}).items():
        ok(p[k] == v, "%s: kept parameter %d is %r in stead of %r" % (c["cls"], k, p[k], v))
    ok(numpy.array_equal(p, m.parameters), "returned %s, model has %s" % (p, m.parameters))
    func, chisq = objective(dict(c, dist="chisq"), m, y, f["w"], None)
    if c["cls"] == "AmoebaFitter": e = 1e-6
    ok(func(p) <= func(A(c["true"])) * (1 + 1e-9), "%s: ends at %r, started at %r" % (c["cls"], func(p), func(A(c["true"]))))
    edge = any(p[k] - lo[k] < 1e-3 * (hi[k] - lo[k]) or hi[k] - p[k] < 1e-3 * (hi[k] - lo[k]) for k in range(first, npar))
    return c["cls"] + ("/edge" if edge else "/in") + ("/keep" if f["keep"] else "")


LOOSE = dict(AmoebaFitter=5e-3, NelderMeadFitter=5e-3, CobylaFitter=5e-3, PowellFitter=5e-3)

if __name__ == "__main__":
    D = ("gauss", "laplace", "cauchy", "exponential", "poisson")
    sys.exit(main("C13", [
        Sub("limits", limprob(), limits, 250, 8000),
        Sub("lm", nlprob(["LevenbergMarquardtFitter"]), run, 150, 5000),
        Sub("curve", nlprob(["CurveFitter"]), run, 100, 4000),
        Sub("amoeba", nlprob(["AmoebaFitter"]), run, 60, 2000),
        Sub("gradient", nlprob([v for v in GRAD[2:]]), run, 250, 8000),
        Sub("simplex", nlprob(SIMPLEX[1:]), run, 80, 3000),
        Sub("errdis", nlprob(["AmoebaFitter", "NelderMeadFitter", "BfgsFitter", "LbfgsbFitter", "NewtonCgFitter", "ConjugateGradientFitter", "TncFitter"], D), run, 250, 8000),
    ], RULE))
