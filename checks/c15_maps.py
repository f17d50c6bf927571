import sys, io, contextlib
from env import *
from fits import *

RULE = ("indices: random images of 1 to 4 dimensions (sides 1 to 5), both orders, contents of several types; oracle numpy.ndindex and the round trip. "
        "fit: random 1-3 dimensional images, models, weights and accuracies of image shape, keep and fitter classes; oracle the same fit on hand-made flattened "
        "indices and data. Non-trivial: images with more than one pixel in at least two directions that are not symmetric.")
SETTINGS = ["C", "F"]


@st.composite
def images(draw):
    shape = draw(st.lists(st.integers(1, 5), min_size=1, max_size=4))
    n = int(numpy.prod(shape))
    return dict(shape=shape, order=draw(st.sampled_from(SETTINGS)), y=draw(st.lists(fl(-9, 9), min_size=n, max_size=n)),
                typ=draw(st.sampled_from(["float", "int", "view"])), first=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)),
                shift=draw(fl(-2, 2)), calls=draw(st.integers(0, 2)))


def indices(c):
    sh = tuple(c["shape"])
    y = A(c["y"]).reshape(sh)
    if c["typ"] == "int": y = numpy.array(numpy.rint(y), dtype=int)
    if c["typ"] == "view": y = numpy.asfortranarray(y)
    y0 = y.copy()
    ia = bf.ImageAssistant(order=c["order"])
    for k in range(c["calls"]):
        ia.getIndices(numpy.zeros(c["first"]))
    ky = ia.getIndices(y)
    n, r = y.size, y.ndim
    ref = list(numpy.ndindex(*sh))
    if r == 1:
        ok(ky.shape == (n,), "indices of a 1-dimensional image have shape %s" % (ky.shape,))
        rows = [(int(k),) for k in ky]
    else:
        ok(ky.shape == (n, r), "indices have shape %s for an image of shape %s" % (ky.shape, sh))
        rows = [tuple(int(v) for v in (row if c["order"] == "C" else row[::-1])) for row in ky]
    ok(rows == ref, "the indices are not those of the pixels in order %s: %s" % (c["order"], rows))
    ok(numpy.issubdtype(ky.dtype, numpy.integer), "indices of type %s" % ky.dtype)
    yd = ia.getydata(y)
    ok(yd.shape == (n,), "data of shape %s" % (yd.shape,))
    for k in range(n):
        ok(yd[k] == y0[rows[k]], "pixel %d of the data is %r; its index %s has %r" % (k, yd[k], rows[k], y0[rows[k]]))
    yc = yd.copy()
    yd += 1
    ok(numpy.array_equal(y, y0), "changing the data changed the map")
    yd = yc
    for back in (ia.resizeData(yd), ia.resizeData(yd, shape=sh)):
        ok(back.shape == sh and numpy.array_equal(back, y0), "the resized data is not the map: %s %s" % (back.tolist(), y0.tolist()))
    p0 = ia.getPositions(y, center=False)
    close(p0, ky.astype(float), "getPositions not centered", 1e-12)
    close(ia.getPositions(y), ky + 0.5, "getPositions centered", 1e-12)
    close(ia.getPositions(y, deproject=lambda v: 2 * v + c["shift"]), 2 * (ky + 0.5) + c["shift"], "getPositions deprojected")
    close(ia.getPositions(y, center=False, deproject=lambda v: 2 * v + c["shift"]), 2.0 * ky + c["shift"], "getPositions deprojected corner")
    return dict(nontrivial=sum(s > 1 for s in sh) > 1, features=["order-" + c["order"], "rank%d" % r, c["typ"]])


M = {
    "surf0": (2, lambda: bf.PolySurfaceModel(0)), "surf1": (2, lambda: bf.PolySurfaceModel(1)), "surf2": (2, lambda: bf.PolySurfaceModel(2)),
    "prod": (2, lambda: bf.ProductModel([bf.PolynomialModel(1), bf.PolynomialModel(1, fixed={0: 1.0})])),
    "etal": (1, lambda: bf.PolynomialModel(1)), "poly2": (1, lambda: bf.PolynomialModel(2)),
    "cube": (3, lambda: bf.ProductModel([bf.PolynomialModel(1), bf.PolynomialModel(1, fixed={0: 1.0}), bf.PolynomialModel(1, fixed={0: 1.0})])),
    "kern": (2, lambda: bf.Kernel2dModel(kernel=bf.Gauss())),
}
LINEAR = ("surf0", "surf1", "surf2", "etal", "poly2")
CLS = ["Fitter", "Fitter", "QRFitter", "LevenbergMarquardtFitter", "CurveFitter", "AmoebaFitter", "BfgsFitter", "LbfgsbFitter", "ScipyFitter"]


@st.composite
def mapfit(draw):
    k = draw(st.sampled_from(sorted(M)))
    rank = M[k][0]
    lin = k in LINEAR
    cls = draw(st.sampled_from([c for c in CLS if lin or c not in ("Fitter", "QRFitter")]))
    lo = {1: 6, 2: 3, 3: 2}[rank]
    sh = draw(st.lists(st.integers(lo, lo + (6 if rank == 1 else 3)), min_size=rank, max_size=rank))
    n = int(numpy.prod(sh))
    fl_ = lambda a, b: draw(st.lists(fl(a, b), min_size=n, max_size=n))
    npar = M[k][1]().npchain
    c = dict(model=k, cls=cls, shape=sh, kind=draw(st.sampled_from(["noise", "noise", "model"])), y=fl_(-1, 1),
             w=draw(st.sampled_from(["none", "int", "float"])), a=draw(st.sampled_from(["none", "scalar", "map"])), rep=draw(st.integers(1, 2)),
             view=draw(st.booleans()), xmap=draw(st.sampled_from(["same", "other", "int"])))
    c["wv"] = None if c["w"] == "none" else fl_(1, 3) if c["w"] == "float" else draw(st.lists(st.integers(1, 4), min_size=n, max_size=n))
    c["av"] = None if c["a"] == "none" else draw(fl(0.3, 2)) if c["a"] == "scalar" else fl_(0.3, 2)
    if cls == "QRFitter": c["a"], c["av"] = "none", None
    c["keep"] = {str(draw(st.integers(0, npar - 1))): draw(fl(0.5, 1.5))} if npar > 2 and draw(st.sampled_from([False, False, True])) else None
    c["tp"] = [draw(fl(0.5, 2)) for _ in range(npar)]
    return c


def flat(c):
    sh = tuple(c["shape"])
    ix = numpy.array(list(numpy.ndindex(*sh)))
    return (ix[:, 0] if len(sh) == 1 else ix)


def fit(c):
    sh = tuple(c["shape"])
    rank, mk = M[c["model"]]
    xf = flat(c)
    n = len(xf)
    tp = A(c["tp"])
    if c["model"] == "kern":
        tp = A([2 + c["tp"][0], sh[0] / 2 - 0.5, sh[1] / 2 - 0.5, 1.0 + 0.2 * c["tp"][-1]])
        if c["keep"] is not None: raise Skip("keep in a kernel")
    y = 0.3 * A(c["y"]) + 0.3 * numpy.sin(17.3 * numpy.arange(n) ** 2) + (mk().result(xf, tp) if c["kind"] == "model" or c["model"] not in LINEAR else 0)
    w = None if c["wv"] is None else numpy.array(c["wv"], dtype=int if c["w"] == "int" else float)
    a = c["av"] if c["a"] != "map" else A(c["av"])
    tomap = lambda v: v if v is None or numpy.ndim(v) == 0 else (numpy.asfortranarray(v.reshape(sh)) if c["view"] else v.reshape(sh).copy())
    keep = kd(c["keep"])
    ym, wm, am = tomap(y), tomap(w), tomap(a)
    xm = ym if c["xmap"] == "same" else numpy.zeros(sh) if c["xmap"] == "other" else numpy.ones(sh, dtype=int)
    snap = [None if v is None else numpy.copy(v) for v in (ym, wm, am)]
    if c["cls"] == "AmoebaFitter" and mk().npchain < 2: raise Skip("amoeba of one parameter")
    out = []
    opt = numpy.get_printoptions()
    for mp in (True, False):
        m = mk()
        m.parameters = tp * 0.9 + 0.05
        kw = dict(map=True) if mp else {}
        with contextlib.redirect_stdout(io.StringIO()):
            ftr = getattr(bf, c["cls"])(xm if mp else xf, m, **kw)
            for i in range(c["rep"]):
                m.parameters = tp * 0.9 + 0.05
                fk = {}
                if w is not None: fk["weights"] = wm if mp else w
                if a is not None: fk["accuracy"] = am if mp else a
                if keep is not None: fk["keep"] = keep
                if c["cls"] not in ("Fitter", "QRFitter", "LevenbergMarquardtFitter", "CurveFitter"): fk["verbose"] = 0
                if c["cls"] == "AmoebaFitter": fk["seed"] = 1234
                if c["cls"] in ("AmoebaFitter",): fk.pop("verbose"); 
                try:
                    pars = ftr.fit(ym if mp else y, **fk)
                except (bf.ConvergenceError, RuntimeError, ValueError) as e:
                    if isinstance(e, ValueError) and "chisq" not in str(e): raise
                    pars = None
        numpy.set_printoptions(**opt)
        if pars is None:
            out.append(None)
            continue
        yf = numpy.asarray(ftr.yfit)
        ok(yf.shape == (sh if mp else (n,)), "yfit has shape %s for data of shape %s" % (yf.shape, sh if mp else n))
        res = [A(pars), A(m.parameters), ftr.chisq, yf.reshape(-1)]
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                res += [A(ftr.stdevs), ftr.scale, A(ftr.covariance)]
            except (numpy.linalg.LinAlgError, FloatingPointError):
                res += [None, None, None]
        out.append(res)
    for v, s, nm in zip((ym, wm, am), snap, ("data", "weights", "accuracy")):
        if v is not None: ok(numpy.array_equal(v, s), "the fit changed the %s of the user" % nm)
    ok((out[0] is None) == (out[1] is None), "the fit of the map and of the flattened map do not both converge")
    if out[0] is None: raise Skip("no convergence")
    for p, q, nm in zip(out[0], out[1], ("parameters", "model parameters", "chisq", "yfit", "stdevs", "scale", "covariance")):
        if p is not None and q is not None:
            close(p, q, nm + " of the map fit versus the flattened fit (%s)" % c["cls"], 1e-8)
    close(out[0][3], mk().result(xf, out[0][1]), "yfit versus the model at the parameters", 1e-8)
    return dict(nontrivial=rank > 1 and len(set(sh)) > 1, features=["cls-" + c["cls"], "rank%d" % rank, "w-" + c["w"], "a-" + c["a"], "keep" if keep else "all", "view" if c["view"] else "plain"])


if __name__ == "__main__":
    sys.exit(main("C15", [
        Sub("indices", images(), indices, 350, 8000),
        Sub("fit", mapfit(), fit, 300, 6000),
    ], RULE))
