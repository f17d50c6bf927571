import sys, io, contextlib
from env import *
from fits import *

RULE = ("Random models and data with 0 to 20 % outliers, every kernel or a function, any domain, one-sidedness, weights, accuracies, maps and four embedded fitters. "
        "The fits which the shell asks of the embedded fitter are recorded: each must use the kernel of the scaled residuals of the one before times the "
        "original weights; the result must be the weighted fit with the reported weights. Non-trivial: at least one weight is changed by more than 1 %.")

KERN = {
    "Biweight": lambda d: numpy.where(abs(d) < 1, (1 - d * d) ** 2, 0), "CosSquare": lambda d: numpy.where(abs(d) < 1, numpy.cos(math.pi * d / 2) ** 2, 0),
    "Tricube": lambda d: numpy.where(abs(d) < 1, (1 - abs(d) ** 3) ** 3, 0), "Triweight": lambda d: numpy.where(abs(d) < 1, (1 - d * d) ** 3, 0),
    "Uniform": lambda d: numpy.where(abs(d) < 1, 1.0, 0), "Cosine": lambda d: numpy.where(abs(d) < 1, numpy.cos(math.pi * d / 2), 0),
    "Triangle": lambda d: numpy.where(abs(d) < 1, 1 - abs(d), 0), "Parabola": lambda d: numpy.where(abs(d) < 1, 1 - d * d, 0),
    "Huber": lambda d: 1 / numpy.maximum(1, abs(d)), "Gauss": lambda d: numpy.exp(-d * d / 2), "Lorentz": lambda d: 1 / (1 + d * d),
}
EXTRA_FUN = {"clip": lambda d: numpy.where(numpy.abs(d) < 1, 1, 0), "bool": lambda d: numpy.abs(d) < 1, "soft": lambda d: 1 / (1 + numpy.abs(d))}
CLS = ["Fitter", "Fitter", "QRFitter", "LevenbergMarquardtFitter", "CurveFitter"]
MOD = {
    "line": (lambda: bf.PolynomialModel(1), [1.0, 0.5]), "parab": (lambda: bf.PolynomialModel(2), [1.0, 0.5, -0.3]), "const": (lambda: bf.PolynomialModel(0), [2.0]),
    "harm": (lambda: bf.HarmonicModel(1, period=3.7) + bf.PolynomialModel(0), [1.0, 0.5, 0.4]), "gauss": (lambda: bf.GaussModel(), [3.0, 0.1, 0.6]),
    "exp": (lambda: bf.ExpModel(), [2.0, -0.7]), "surf": (lambda: bf.PolySurfaceModel(1), [1.0, 0.3, -0.2]),
}
NL = ("gauss", "exp")


@st.composite
def robust(draw, grossonly=False):
    k = draw(st.sampled_from(sorted(MOD)))
    cls = draw(st.sampled_from([c for c in CLS if k not in NL or c not in ("Fitter", "QRFitter")]))
    nx, ny = (draw(st.integers(4, 6)), draw(st.integers(4, 6))) if k == "surf" else (draw(st.integers(24, 50)), 1)
    n = nx * ny
    c = dict(model=k, cls=cls, shape=[nx, ny], seed=draw(st.integers(0, 10 ** 6)), sigma=draw(st.sampled_from([0.05, 0.3])),
             kernel=draw(st.sampled_from(sorted(KERN) + sorted(EXTRA_FUN))), how=draw(st.sampled_from(["class", "instance", "fit", "fitfunc"])),
             domain=draw(st.sampled_from([None, None, 2.5, 4.0, 7.0])), dwhere=draw(st.sampled_from(["init", "fit"])),
             side=draw(st.sampled_from([None, None, "positive", "p", "negative", "n"])), swhere=draw(st.sampled_from(["init", "fit"])),
             wk=draw(st.sampled_from(["none", "none", "float", "int", "list"])), acc=draw(st.sampled_from(["none", "none", "scalar", "array"])),
             out=draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([-60, -25, -8, 6, 12, 30, 80])).map(list), max_size=n // 6)),
             rep=draw(st.integers(1, 2)), map=draw(st.booleans()) if k == "surf" else False)
    if c["kernel"] in EXTRA_FUN:
        c["how"] = draw(st.sampled_from(["callable", "fitfunc"]))
        if c["domain"] is None: c["domain"] = 4.0
        if c["how"] == "callable": c["dwhere"] = "init"
    if cls == "QRFitter": c["acc"] = "none"
    return c


def data(c):
    rng = numpy.random.RandomState(c["seed"])
    mk, tp = MOD[c["model"]]
    nx, ny = c["shape"]
    x = numpy.array(list(numpy.ndindex(nx, ny)), dtype=float) if c["model"] == "surf" else numpy.linspace(-2, 2, nx)
    n = nx * ny
    acc = None if c["acc"] == "none" else c["sigma"] * 1.3 if c["acc"] == "scalar" else c["sigma"] * numpy.exp(rng.uniform(-0.7, 0.7, n))
    s = c["sigma"] if acc is None else acc
    clean = mk().result(x, tp) + s * rng.standard_normal(n)
    y = clean.copy()
    for i, v in c["out"]:
        y[i] = clean[i] + v * (s if numpy.ndim(s) == 0 else s[i])
    w = None if c["wk"] == "none" else rng.randint(1, 4, n) if c["wk"] == "int" else rng.uniform(0.8, 3, n)
    return mk, tp, x, y, clean, w, acc


def makefitter(cls, x, m, **kw):
    rec = []
    base = getattr(bf, cls)

    class Rec(base):
        def fit(self, ydata, weights=None, **k):
            r = super().fit(ydata, weights=weights, **k)
            rec.append(dict(w=None if weights is None else numpy.array(weights, dtype=float), y=numpy.array(ydata, dtype=float), par=A(self.model.parameters),
                            scale=self.scale, chisq=self.chisq, kw=dict(k)))
            return r
    f = Rec(x, m, **kw)
    return f, rec


def check(c):
    mk, tp, x, y, clean, w, acc = data(c)
    sh = tuple(c["shape"])
    tomap = (lambda v: v.reshape(sh).copy() if isinstance(v, numpy.ndarray) else v) if c["map"] else (lambda v: v)
    m = mk()
    m.parameters = tp
    ftr, rec = makefitter(c["cls"], tomap(y) if c["map"] else x, m, **(dict(map=True) if c["map"] else {}))
    name = c["kernel"]
    kf = KERN.get(name) or EXTRA_FUN[name]
    kw, fk = {}, {}
    arg = EXTRA_FUN[name] if name in EXTRA_FUN else KERN[name] if c["how"] == "fitfunc" else getattr(bf, name)() if c["how"] == "instance" else getattr(bf, name)
    if c["how"] in ("fit", "fitfunc"):
        fk["kernel"] = arg
        dom = c["domain"]
        if dom is None: dom = 5.0
        (fk if c["dwhere"] == "fit" else kw)["domain"] = dom
    else:
        kw["kernel"] = arg
        dom = c["domain"]
        if dom is not None: (fk if c["dwhere"] == "fit" else kw)["domain"] = dom
        else: dom = 6 / getattr(bf, name)().fwhm        # the widths are checked in C24
    if c["side"] is not None: (fk if c["swhere"] == "fit" else kw)["onesided"] = c["side"]
    if acc is not None: fk["accuracy"] = tomap(acc)
    if w is not None: fk["weights"] = w.tolist() if c["wk"] == "list" and not c["map"] else tomap(w)
    yy = tomap(y)
    y0, w0 = y.copy(), None if w is None else w.copy()
    rob = bf.RobustShell(ftr, **kw)
    changed = False
    for i in range(c["rep"]):
        rec.clear()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                par = rob.fit(yy, **fk)
        except (bf.ConvergenceError, RuntimeError, numpy.linalg.LinAlgError) as e:
            raise Skip(str(e))
        except ValueError as e:
            if "chisq" in str(e): raise Skip(str(e))
            raise
        ok(numpy.array_equal(A(yy).reshape(-1), y0), "the data of the user were changed")
        if w is not None:
            ok(numpy.array_equal(A(fk["weights"]).reshape(-1), w0), "the weights of the user were changed")
        ww = numpy.ones(len(y)) if w is None else A(w)
        ok(len(rec) >= 2, "the embedded fitter is used %d times" % len(rec))
        first = rec[0]["w"]
        close(ww if first is None else first.reshape(-1), ww, "weights of the initial fit")
        sgn = 0 if c["side"] is None else 1 if c["side"][0] == "p" else -1
        for a, b in zip(rec[:-1], rec[1:]):
            close(b["y"].reshape(-1), y0, "data in the robust fits")
            d = (y - mk().result(x, a["par"])) / (a["scale"] * dom)
            if acc is not None: d = d / acc
            exp = 1.0 * kf(d)
            if sgn > 0: exp = numpy.where(d < 0, 1.0, exp)
            if sgn < 0: exp = numpy.where(d > 0, 1.0, exp)
            edge = (abs(abs(d) - 1) < 1e-6) | (abs(d) < 1e-9)
            exp = exp * ww
            got = b["w"].reshape(-1)
            ok(numpy.all((got >= 0) & (got <= ww * (1 + 1e-12))), "robust weights not between zero and the original ones: %s" % got.tolist())
            if not edge.any():
                close(got, exp, "weights in the robust fit versus kernel of the scaled residuals")
            if numpy.max(abs(got - ww) / ww) > 0.01: changed = True
        last = rec[-1]
        rw = numpy.asarray(rob.weights, dtype=float)
        ok(rw.shape == (sh if c["map"] else y.shape), "shape of the weights: %s" % (rw.shape,))
        close(rw.reshape(-1), last["w"].reshape(-1), "weights reported versus weights in the final fit")
        close(par, last["par"], "parameters returned versus those of the final fit")
        close(m.parameters, last["par"], "parameters in the model versus those of the final fit")
        close(rob.chisq, last["chisq"], "chisq of the shell versus the fitter")
        # the result is the weighted fit
        if rw.sum() < 2 * len(MOD[c["model"]][1]) + 4: continue         # hardly any data left
        m2 = mk()
        m2.parameters = last["par"]
        f2 = getattr(bf, c["cls"])(x, m2)
        k2 = {} if acc is None else dict(accuracy=acc)
        with contextlib.redirect_stdout(io.StringIO()):
            p2 = f2.fit(y, weights=rw.reshape(-1), **k2)
        if c["cls"] in LINFIT:
            close(par, p2, "parameters versus a weighted fit with the reported weights", 1e-6)
            close(ftr.chisq, f2.chisq, "chisq of the embedded fitter", 1e-6)
            close(ftr.stdevs, f2.stdevs, "standard deviations of the embedded fitter", 1e-6)
        else:           # iterative fitters end when chisq does not change any more
            sd = f2.stdevs
            if not (numpy.all(numpy.isfinite(sd)) and numpy.all(sd < 1)): raise Skip("the iterative fit got lost")
            ok(numpy.all(abs(A(par) - p2) < 0.2 * sd + 1e-9), "parameters %s versus a weighted fit with the reported weights %s +- %s" % (A(par).tolist(), A(p2).tolist(), sd.tolist()))
            close(ftr.chisq, f2.chisq, "chisq of the embedded fitter", 1e-2)
            # converged (the loop may be stopped by the maximum number of iterations)
        if len(rec) < rob.maxIter:
            tol = rob.tolerance * max(1, last["chisq"])
            ok(abs(last["chisq"] - rec[-2]["chisq"]) <= tol * (1 + 1e-9), "stopped without convergence: chisq %r after %r" % (last["chisq"], rec[-2]["chisq"]))
    return dict(nontrivial=changed, features=["kernel-" + name, "cls-" + c["cls"], "how-" + c["how"], "side-%s" % sgn, "acc-" + c["acc"], "w-" + c["wk"],
                                              "map" if c["map"] else "list", "outliers" if c["out"] else "none"])


@st.composite
def gross(draw):
    k = draw(st.sampled_from(["line", "parab", "const", "harm", "surf"]))
    n = 60
    nout = draw(st.integers(0, 6))
    idx = draw(st.lists(st.integers(0, 59), min_size=nout, max_size=nout, unique=True))
    one = draw(st.booleans())
    return dict(model=k, cls=draw(st.sampled_from(["Fitter", "QRFitter", "LevenbergMarquardtFitter"])), shape=[10, 6] if k == "surf" else [60, 1],
                seed=draw(st.integers(0, 10 ** 6)), sigma=draw(st.sampled_from([0.05, 0.3])), one=one,
                kernel=draw(st.sampled_from(["Biweight", "CosSquare", "Tricube", "Triweight", "Cosine", "Parabola"])),
                wk=draw(st.sampled_from(["none", "none", "float"])), acc=draw(st.sampled_from(["none", "scalar", "array"])),
                out=[[i, draw(st.sampled_from([20, 40, 60])) * (1 if one else draw(st.sampled_from([-1, 1])))] for i in idx], side=draw(st.booleans()))


def check_gross(c):
    if c["cls"] == "QRFitter": c = dict(c, acc="none")
    mk, tp, x, y, clean, w, acc = data(c)
    bad = sorted(i for i, v in c["out"])
    good = numpy.ones(len(y))
    good[bad] = 0
    kw = {} if acc is None else dict(accuracy=acc)
    f0 = getattr(bf, c["cls"])(x, mk())
    with contextlib.redirect_stdout(io.StringIO()):
        p0 = f0.fit(clean, weights=good if w is None else good * w, **kw)
        m = mk()
        f1 = getattr(bf, c["cls"])(x, m)
        if w is not None: kw["weights"] = w
        side = {} if not (c["side"] and c["one"] and bad) else dict(onesided="positive")
        p1 = bf.RobustShell(f1, kernel=getattr(bf, c["kernel"]), **side).fit(y, **kw)
    sd = f0.stdevs
    d = numpy.max(abs(p1 - p0) / sd)
    ok(d < 2.5, "robust fit %s (outliers %s) deviates %.1f standard deviations from the fit without the outliers %s +- %s" % (A(p1).tolist(), c["out"], d, A(p0).tolist(), A(sd).tolist()))
    return dict(nontrivial=len(bad) > 0, features=["nout%d" % len(bad), "kernel-" + c["kernel"], "acc-" + c["acc"], "d%.1f" % d])


if __name__ == "__main__":
    sys.exit(main("C16", [
        Sub("shell", robust(), check, 300, 6000),
        Sub("gross", gross(), check_gross, 200, 4000),
    ], RULE))
