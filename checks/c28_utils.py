import sys, re
from env import *
from pbt import *
from catalog import *
from BayesicFitting.source import Tools, bspline, splinelab, Formatter

RULE = ("Random arrays (0 to 3 dimensions, sizes of the float and integer types), formats, line lengths and limits for the formatter; random independent vectors in bases of 1 to 7 "
        "dimensions; all factorials to 3000 and random large ones; random arguments for the tools, the noise scale and the B-spline library. Oracles: parsing back, "
        "Gram matrix and QR, lgamma, numpy and scipy. Non-trivial: more than one element.")
fmodule = sys.modules["BayesicFitting.source.Formatter"]


@st.composite
def fcase(draw):
    nd = draw(st.integers(0, 3))
    shape = [draw(st.integers(1, 9 if nd == 1 else 5)) for _ in range(nd)]
    n = int(numpy.prod(shape)) if nd else 1
    ty = draw(st.sampled_from(["float64", "float64", "int64", "float32", "int32", "uint8", "list", "ilist"]))
    el = fl(-999, 999, 3) if ty in ("float64", "float32", "list") else st.integers(0, 255) if ty == "uint8" else st.integers(-99999, 99999)
    return dict(shape=shape, ty=ty, v=draw(st.lists(el, min_size=n, max_size=n)), format=draw(st.sampled_from([None, None, " %10.3e", " %.6g", " %9.4f", " %12.7f"])) if ty not in ("int64", "int32", "ilist", "uint8") else draw(st.sampled_from([None, None, " %6d", " %d"])),
                indent=draw(st.sampled_from([None, 0, 4, 10])), ll=draw(st.sampled_from([None, 30, 60, 200])), max=draw(st.sampled_from([None, None, -1, 1, 2, 3, 8])), tail=draw(st.integers(0, 4)),
                how=draw(st.sampled_from(["formatter", "formatter", "fma", "init"])))


def expected_items(a, mx, tail):
    """nested list of the items shown; ... as Ellipsis"""
    if a.size == 1: return float(a.reshape(-1)[0])
    n = a.shape[0]
    k = n if mx is None else min(n, mx)
    out = [expected_items(a[i], mx, tail) for i in range(k)]
    if mx is not None and n > mx:
        if n > mx + tail: out.append(Ellipsis)
        t = min(tail, n - mx)
        out += [expected_items(a[i], mx, tail) for i in range(n - t, n)]
    return out


def parse(s):
    toks = re.findall(r"\[|\]|\.\.\.|[^\s\[\]]+", s)
    stack = [[]]
    for t in toks:
        if t == "[": stack.append([])
        elif t == "]":
            x = stack.pop(); stack[-1].append(x)
        elif t == "...": stack[-1].append(Ellipsis)
        else: stack[-1].append(float(t))
    ok(len(stack) == 1, "brackets do not match: " + repr(s))
    ok(len(stack[0]) == 1, "not one item: " + repr(s))
    return stack[0][0]


def tolof(f, v):
    m = re.match(r" %\d*\.(\d+)([feg])", f)
    d, k = int(m.group(1)), m.group(2)
    if k == "f": return 0.5 * 10.0 ** -d * (1 + 1e-6) + abs(v) * 1e-9
    if k == "e": return abs(v) * 0.5 * 10.0 ** -d * 1.01
    return abs(v) * 0.5 * 10.0 ** (1 - d) * 1.01


def same(got, exp, f, s):
    if isinstance(exp, list):
        ok(isinstance(got, list) and len(got) == len(exp), "structure of %r" % s)
        for g, e in zip(got, exp): same(g, e, f, s)
    elif exp is Ellipsis: ok(got is Ellipsis, "expected ... in %r" % s)
    else:
        ok(isinstance(got, float), "structure of %r" % s)
        tol = tolof(f, exp) if f[-1] in "feg" else 0
        ok(abs(got - exp) <= tol, "%r is formatted as %r in %r" % (exp, got, s))


def formatter(c):
    a = numpy.asarray(c["v"], dtype=float if c["ty"] in ("list", "float64", "float32") else int).reshape(c["shape"])
    if c["ty"] not in ("list", "ilist"): a = a.astype(c["ty"])
    arg = a.tolist() if "list" in c["ty"] else a
    kw = {}
    if c["format"] is not None: kw["format"] = c["format"]
    if c["indent"] is not None: kw["indent"] = c["indent"]
    if c["ll"] is not None: kw["linelength"] = c["ll"]
    mx = c["max"]
    isf = a.dtype.kind == "f"
    f = c["format"] or (" %8.3f" if isf else " %8d")
    before = a.copy()
    if c["how"] == "fma":
        s, mxe, tail = bf.fma(arg, **kw), None, 0
    elif c["how"] == "init":
        keep = (dict(fmodule.fmt), fmodule.gindent, fmodule.gllen, fmodule.gmax)
        try:
            bf.formatter_init(format={"float64": " %11.5f", "int64": " %7d"}, indent=c["indent"], linelength=c["ll"], max=mx)
            s = bf.formatter(arg, tail=c["tail"], **({"format": c["format"]} if c["format"] else {}))
            f = c["format"] or (" %11.5f" if isf else " %7d")
            if c["ty"] == "uint8" and c["format"] is None: f = " %8d"
            mxe = mx if mx is None or mx >= 0 else 5
        finally:
            fmodule.fmt.clear(); fmodule.fmt.update(keep[0])
            fmodule.gindent, fmodule.gllen, fmodule.gmax = keep[1:]
        tail = c["tail"]
    else:
        s = bf.formatter(arg, max=mx, tail=c["tail"], **kw)
        mxe, tail = (5 if mx == -1 else mx), c["tail"]
    ok(isinstance(s, str), "not a string")
    ok(numpy.array_equal(a, before), "input changed")
    if a.dtype == numpy.float32: a = a.astype(float)
    same(parse(s), expected_items(a, mxe, tail), f, s)
    w = len(f % 1)
    fits = all(len(f % v) <= w for v in a.reshape(-1)) and re.match(r" %\d", f)
    ll = c["ll"] or 120
    ind = c["indent"] or 0
    if fits and w + ind + 8 < ll:
        for line in s.split("\n"):
            ok(len(line) <= ll + ind + 2 * a.ndim + 6, "line of %d characters with a line length of %d: %r" % (len(line), ll, line))
    lines = s.split("\n")[1:]
    ok(all(l.startswith(" " * ind) for l in lines), "indent %d: %r" % (ind, s))
    return dict(nontrivial=a.size > 1, features=[c["ty"], "%dd" % a.ndim, c["how"]])


@st.composite
def bcase(draw):
    n = draw(st.integers(1, 7))
    return dict(n=n, vs=draw(st.lists(st.lists(fl(-3, 3), min_size=n, max_size=n), min_size=1, max_size=12)), resets=draw(st.lists(st.integers(0, 11), max_size=2)), ty=draw(st.sampled_from(["array", "list"])))


def basis(c):
    n = c["n"]
    ob = bf.OrthonormalBasis() if hasattr(bf, "OrthonormalBasis") else sys.modules["BayesicFitting.source.OrthonormalBasis"].OrthonormalBasis()
    cur = []
    most = 0
    for i, v in enumerate(c["vs"]):
        v = A(v)
        if i in c["resets"] or len(cur) >= n: cur = []
        new = i in c["resets"]
        q = numpy.linalg.qr(A(cur).T)[0] if cur else numpy.zeros((n, 0))
        res = v - q @ (q.T @ v)
        if numpy.linalg.norm(res) < 0.05 * (1 + numpy.linalg.norm(v)): raise Skip("dependent vectors")
        arg = v.copy() if c["ty"] == "array" else v.tolist()
        u = ob.normalise(arg, reset=True) if new else ob.normalise(arg)
        ok(numpy.array_equal(A(arg), v), "normalise changed its input")
        cur.append(v)
        B = A(ob.basis)
        ok(B.shape == (len(cur), n), "basis has shape %s after %d vectors of length %d" % (B.shape, len(cur), n))
        ok(numpy.allclose(B @ B.T, numpy.identity(len(cur)), atol=1e-8), "basis is not orthonormal: %s" % (B @ B.T).tolist())
        ok(numpy.allclose(B[-1], u, atol=1e-12), "returned vector is not the last of the basis")
        ok(numpy.allclose(u, res / numpy.linalg.norm(res), atol=1e-8), "%s, expected %s" % (u.tolist(), (res / numpy.linalg.norm(res)).tolist()))
        V = A(cur)
        ok(numpy.allclose(V, (V @ B.T) @ B, atol=1e-7), "basis spans another space")
        most = max(most, len(cur))
    return dict(nontrivial=most > 1, features=["%d vectors" % most])


def lgam(k): return math.lgamma(k + 1)


def facts(c):
    k = c["k"]
    lf = bf.logFactorial
    if not isinstance(k, list):
        got = lf(k)
        ok(numpy.ndim(got) == 0, "not a number")
        e = lgam(int(k))
        ok(abs(got - e) < 1e-8 * (1 + 1e-4 * e), "log factorial of %r is %r, expected %r" % (k, got, e))
        for ty in (numpy.int64, numpy.int32, float):
            ok(abs(lf(ty(k)) - e) < 1e-8 * (1 + 1e-4 * e), "log factorial of %s(%r)" % (ty.__name__, k))
        return "scalar"
    a = numpy.asarray(k)
    got = lf(k if c.get("list") else a)
    ok(numpy.shape(got) == a.shape, "shape %s of %s" % (numpy.shape(got), a.shape))
    e = numpy.vectorize(lambda z: lgam(int(z)))(a)
    ok(numpy.all(abs(got - e) < 1e-8 * (1 + 1e-4 * e)), "log factorial of %s is %s, expected %s" % (k, numpy.asarray(got).tolist(), e.tolist()))
    return "array"


FACTS = [dict(k=k) for k in list(range(0, 260)) + [10 ** p for p in range(3, 10)]] + [dict(k=list(range(i, i + 100))) for i in range(0, 3000, 97)]
FRND = st.one_of(st.builds(lambda k, l: dict(k=k, list=l), st.lists(st.one_of(st.integers(0, 250), st.integers(0, 10 ** 7), st.sampled_from([99, 100, 101, 0, 1])), min_size=1, max_size=9), st.booleans()),
                 st.builds(lambda k: dict(k=k), st.lists(st.lists(st.integers(0, 300), min_size=3, max_size=3), min_size=1, max_size=4)),
                 st.builds(lambda k: dict(k=k), st.lists(fl(0, 300), min_size=1, max_size=5)), st.builds(lambda k: dict(k=k), fl(0, 300)))


@st.composite
def tcase(draw):
    return dict(v=draw(st.lists(fl(-9, 9), min_size=1, max_size=9)), w=draw(st.lists(fl(0.1, 4), min_size=9, max_size=9)), lo=draw(fl(-5, 5)), rg=draw(fl(0.5, 9)), x=draw(st.one_of(fl(-2000, 2000, 4), fl(-1, 1, 6), st.sampled_from([0, 1, 10, 100, 1000.0, -10, 0.1, 0.01, 20, -0.5]))),
                i=draw(st.lists(st.integers(-999, 999), min_size=1, max_size=9)), k=draw(st.integers(0, 12)), dig=draw(st.integers(-1, 1)))


def tools(c):
    v, n = A(c["v"]), len(c["v"])
    w = A(c["w"][:n])
    # averages
    m, s = Tools.average(v)
    close1(m, v.mean(), "average"); close1(s, v.std(), "deviation", 1e-7)
    m, s = Tools.average(v, weights=w)
    mm = (v @ w) / w.sum()
    close1(m, mm, "weighted average"); close1(s, math.sqrt(w @ (v - mm) ** 2 / w.sum()), "weighted deviation", 1e-7)
    lo, rg = c["lo"], c["rg"]
    vv = lo + (v - lo) % rg
    z = (w @ numpy.exp(2j * math.pi * (vv - lo) / rg)) / w.sum()
    if abs(z) > 1e-3:
        m, s = Tools.average(vv, weights=w, circular=[lo, lo + rg])
        mm = lo + (numpy.angle(z) / (2 * math.pi) % 1) * rg
        ok(lo - 1e-9 <= m <= lo + rg + 1e-9, "circular average %r outside its domain" % m)
        ok(abs((m - mm + rg / 2) % rg - rg / 2) < 1e-8 * rg / abs(z), "circular average %r, expected %r" % (m, mm))
        d = (vv - mm + rg / 2) % rg - rg / 2
        if numpy.all(abs(abs(d) - rg / 2) > 1e-4 * rg):
            close1(s, math.sqrt(w @ d ** 2 / w.sum()), "circular deviation", 1e-6 / abs(z), rg)
    # nice numbers
    x = c["x"]
    r = Tools.nicenumber(x)
    if x == 0: ok(r == 0, "nice number of 0")
    else:
        ok(r * x > 0 and abs(r) <= abs(x) * (1 + 1e-12) and abs(r) > abs(x) * 0.49, "nice number %r for %r" % (r, x))
        q = abs(r) / 10.0 ** math.floor(math.log10(abs(r)) + 1e-9)
        ok(abs(q - round(q)) < 1e-9, "nice number %r for %r has more than one digit" % (r, x))
    # integers
    iv = numpy.asarray(c["i"])
    got = Tools.fix2int(iv.astype(float) + c["dig"] * 1e-9)
    ok(numpy.array_equal(got, iv) and got.dtype.kind == "i", "fix2int of %s is %s" % (iv.tolist(), got.tolist()))
    # items
    k, L = c["k"], list(c["v"])
    ok(Tools.getItem(L, k) == L[min(k, n - 1)], "getItem"); ok(Tools.getItem(3.5, k) == 3.5, "getItem of a number")
    g = Tools.makeNext(L, k)
    e = [L[j] if j < n else L[-1] for j in range(k, k + n + 3)]
    ok([next(g) for _ in e] == e, "makeNext from %d of %s" % (k, L))
    g = Tools.makeNext(2.5, 0)
    ok([next(g) for _ in range(3)] == [2.5] * 3, "makeNext of a number")
    t = c["lo"]
    e = [j for j, q in enumerate(L) if q > t]
    if e: ok(Tools.firstIndex(L, lambda q: q > t) == e[0], "firstIndex")
    else:
        try: Tools.firstIndex(L, lambda q: q > t)
        except StopIteration: pass
        else: fail("firstIndex found an item that is not there")
    ok(Tools.firstIndex(L) == 0, "firstIndex without condition")
    a, b = v[0], v[-1]
    ok(bool(Tools.isBetween(a, t, b)) == (min(a, b) <= t <= max(a, b)), "isBetween(%r, %r, %r)" % (a, t, b))
    ok(Tools.isBetween(a, a, b) and Tools.isBetween(a, b, b), "isBetween at the ends")
    ok(Tools.length(None) == 0 and Tools.length(3.0) == 1 and Tools.length(L) == n and Tools.length(v) == n, "length")
    arr = Tools.toArray(t)
    ok(arr.shape == (1,) and arr[0] == t, "toArray of a number"); ok(numpy.array_equal(Tools.toArray(L), v), "toArray of a list")
    ok(Tools.toArray(L, ndim=2).shape == (1, n) and Tools.toArray(L, dtype=int).dtype == int, "toArray")
    X = numpy.arange(3 * n).reshape(n, 3)
    ok(numpy.array_equal(Tools.getColumnData(X, k % 3), X[:, k % 3]) and Tools.getColumnData(v, 0) is v, "getColumnData")
    # types
    ok(Tools.isInstance(3, int) and Tools.isInstance(numpy.int32(3), int) and Tools.isInstance(3, float) and Tools.isInstance(t, float) and Tools.isInstance(v[0], float) and not Tools.isInstance(2.5, int)
       and not Tools.isInstance("a", float) and Tools.isInstance("a", str), "isInstance")
    ok(Tools.isList(L, float) == (True, True) and Tools.isList(v, float) == (True, True) and Tools.isList(2.5, float) == (True, False) and Tools.isList(L + ["a"], float) == (False, False)
       and Tools.isList(iv, int) == (True, True) and Tools.isList("abc", str) == (True, False), "isList")
    ok(Tools.subclassof(bf.GaussModel, bf.Model) and not Tools.subclassof(bf.Model, bf.GaussModel) and not Tools.subclassof(3, bf.Model) and Tools.subclassof(bf.PolynomialModel, bf.LinearModel), "subclassof")
    class O: pass
    o = O()
    ok(Tools.setListOfAttributes(o, "b", L, {"b": float}) and numpy.array_equal(o.b, v) and isinstance(o.b, numpy.ndarray), "setListOfAttributes")
    ok(Tools.setListOfAttributes(o, "b", t, {"b": float}) and o.b.shape == (1,), "setListOfAttributes of a number")
    ok(not Tools.setListOfAttributes(o, "q", t, {"b": float}) and not hasattr(o, "q"), "attribute not in the list")
    ok(Tools.setSingleAttributes(o, "s", k, {"s": int}) and o.s == k, "setSingleAttributes"); ok(Tools.setNoneAttributes(o, "s", None, ["s"]) and o.s is None, "setNoneAttributes")
    ok(not Tools.setNoneAttributes(o, "s", 3, ["s"]), "setNoneAttributes with a value")
    for f, a in ((Tools.setSingleAttributes, (o, "s", "x", {"s": float})), (Tools.setListOfAttributes, (o, "s", ["x"], {"s": float}))):
        try: f(*a)
        except TypeError: pass
        else: fail("%s accepts a wrong type" % f.__name__)
    p = O()
    o.lst = v.copy()
    Tools.decorate(o, p); p.lst[0] = 99
    ok(o.lst[0] == v[0] and p.lst[1:].tolist() == v[1:].tolist(), "decorate shares its attributes")
    Tools.decorate(o, p, copy=False)
    ok(p.lst is o.lst, "decorate with copy=False")
    return dict(nontrivial=n > 1)


def close1(a, b, what, tol=1e-9, scale=None):
    s = 1 + abs(b) if scale is None else scale
    ok(abs(a - b) <= tol * s + 1e-7 * (tol > 1e-8), "%s: %r, expected %r" % (what, a, b))


@st.composite
def ncase(draw):
    return dict(v=draw(fl(0.05, 9)), lim=draw(st.one_of(st.none(), st.tuples(fl(0.01, 1), fl(1.5, 30)).map(list))), prior=draw(st.sampled_from([None, "J", "U"])), u=draw(fl(0.01, 0.99)), s=draw(fl(0.01, 3)), cls=draw(st.sampled_from(["NoiseScale", "HyperParameter"])),
                fix=draw(st.booleans()), mini=draw(st.booleans()))


def noise(c):
    pr = None if c["prior"] is None else bf.JeffreysPrior() if c["prior"] == "J" else bf.UniformPrior()
    isn = c["cls"] == "NoiseScale"
    if isn: h = bf.NoiseScale(scale=c["v"], isFixed=c["fix"], prior=pr, limits=c["lim"])
    else: h = bf.HyperParameter(hypar=c["v"], isFixed=c["fix"], prior=pr, limits=c["lim"])
    ok(h.hypar == c["v"], "value")
    if isn: ok(h.scale == c["v"], "scale")
    if pr is not None: ok(not h.isFixed, "fixed although it has a prior")
    elif c["lim"] is None: ok(bool(h.isFixed) == c["fix"], "isFixed")
    if c["lim"] is not None:
        ok(list(h.getLimits()) == c["lim"] and h.isBound(), "limits %s" % (h.getLimits(),))
        lo, hi = c["lim"]
        exp = lo + c["u"] * (hi - lo) if c["prior"] == "U" else lo * (hi / lo) ** c["u"]
        d = h.unit2Domain(c["u"])
        ok(abs(d - exp) < 1e-9 * (1 + exp), "unit2Domain %r, expected %r" % (d, exp))
        ok(abs(h.domain2Unit(d) - c["u"]) < 1e-9, "domain2Unit")
        pe = 1 / (hi - lo) if c["prior"] == "U" else 1 / (d * math.log(hi / lo))
        ok(abs(h.partialDomain2Unit(d) - pe) < 1e-8 * (1 + pe), "partialDomain2Unit %r, expected %r" % (h.partialDomain2Unit(d), pe))
    elif pr is None:
        for f in (lambda: h.isBound(), lambda: h.domain2Unit(0.5), lambda: h.setLimits([1, 2])):
            try: f()
            except ValueError: pass
            else: fail("no prior but no error")
    if isn and c["mini"]:
        h.minimumScale(c["v"] + 1); ok(h.minimum and h.scale == c["v"] + 1, "minimumScale")
    h.stdev = c["s"]
    k = h.copy()
    ok(type(k) is type(h) and k.hypar == h.hypar and k.isFixed == h.isFixed and k.stdev == h.stdev, "copy")
    if isn: ok(k.minimum == h.minimum and k.stdevScale == c["s"], "copy of the noise scale")
    ok((k.prior is None) == (h.prior is None) and (k.prior is None or k.prior is not h.prior), "prior of the copy")
    if isn: k.scale = 77.0; k.stdevScale = 5.0
    else: k.hypar = 77.0; k.stdev = 5.0
    ok(k.hypar == 77.0 and h.hypar != 77.0 and h.stdev == c["s"], "copy shares its value")
    if k.prior is not None:
        old = h.getLimits() if c["lim"] is not None else None
        k.setLimits([0.5, 2.0])
        ok(not k.isFixed and list(k.getLimits()) == [0.5, 2.0], "setLimits")
        if old is not None: ok(list(h.getLimits()) == list(old), "copy shares its limits")
    return dict(nontrivial=True, features=[c["cls"], "limits" if c["lim"] else "no limits"])


@st.composite
def scase(draw):
    p = draw(st.integers(0, 5))
    g = draw(st.lists(fl(0.2, 3), min_size=1, max_size=6))
    return dict(p=p, g=g, off=draw(fl(-5, 5)), u=draw(st.lists(fl(0, 1, 4), min_size=1, max_size=6)), k=draw(st.integers(2, 5)), t=draw(st.lists(st.integers(-4, 4), min_size=1, max_size=9)), d=draw(st.integers(0, 3)))


def bsp(c):
    from scipy.interpolate import BSpline
    p = c["p"]
    kn = numpy.cumsum([c["off"]] + c["g"])
    t = splinelab.augknt(kn, p)
    ok(numpy.allclose(t, numpy.concatenate([[kn[0]] * p, kn, [kn[-1]] * p])), "augknt")
    B = bspline.Bspline(t, p)
    nb = len(t) - p - 1
    x = kn[0] + A(c["u"]) * (kn[-1] - kn[0]) * 0.9999
    x = x[numpy.min(abs(x[:, None] - kn[None, :]), axis=1) > 1e-6 * (kn[-1] - kn[0])]
    if len(x) == 0: raise Skip("at the knots")
    def ref(d): return numpy.array([(lambda b: b(x) if d == 0 else b.derivative(d)(x) if d <= p else 0 * x)(BSpline(t, numpy.identity(nb)[i], p)) for i in range(nb)]).T
    for d in range(c["d"] + 1):
        e = ref(d)
        got = A(B.collmat(x, deriv_order=d)).reshape(e.shape)
        s = 1 + numpy.max(abs(e))
        ok(numpy.all(abs(got - e) < 1e-8 * s), "derivative %d of the basis splines of order %d: %s, expected %s" % (d, p, got.tolist(), e.tolist()))
        if d == 0: ok(numpy.allclose(got.sum(axis=1), 1), "basis splines do not add up to 1"); ok(numpy.allclose(B(x[0]), e[0]), "call")
        if d == 1 and p >= 1: ok(numpy.allclose(B.d(x[0]), e[0], atol=1e-8 * s), "d()")
    tt = sorted(c["t"])
    ok(list(splinelab.knt2mlt(tt)) == [tt[:i].count(q) for i, q in enumerate(tt)], "knt2mlt of %s" % tt)
    k = c["k"]
    av = splinelab.aveknt(tt, k)
    e = [sum(tt[i:i + k]) / k for i in range(len(tt) - k + 1)]
    ok(len(av) == len(e) and numpy.allclose(av, e), "aveknt of %s over %d: %s, expected %s" % (tt, k, av, e))
    if len(kn) > p + 1 and p >= 1:
        ap = splinelab.aptknt(kn, p)
        ok(len(ap) == len(kn) + p + 1 and list(ap[:p + 1]) == [kn[0]] * (p + 1) and list(ap[-p - 1:]) == [kn[-1]] * (p + 1) and numpy.all(numpy.diff(ap) >= 0), "aptknt of %s: %s" % (kn, ap))
        # Schoenberg-Whitney: each site within the support of its basis spline
        for i in range(1, len(kn) - 1): ok(ap[i] < kn[i] < ap[i + p + 1], "aptknt: not suited to interpolate")
    m = splinelab.spcol(t, p, numpy.sort(numpy.concatenate([x, x])))
    xs = numpy.sort(x)
    e = numpy.zeros((2 * len(x), nb))
    if len(set(xs.tolist())) == len(xs):
        o = numpy.argsort(x)
        e[0::2] = ref(0)[o]; e[1::2] = ref(1)[o]
        ok(numpy.all(abs(m - e) < 1e-8 * (1 + numpy.max(abs(e)))), "spcol: %s, expected %s" % (m.tolist(), e.tolist()))
    return dict(nontrivial=p >= 1 and len(kn) > 2, features=["order %d" % p])


sys.exit(main("C28", [Sub("formatter", fcase(), formatter, 600, 40000), Sub("basis", bcase(), basis, 300, 20000), Enum("factorials", FACTS, facts), Sub("factrandom", FRND, facts, 200, 10000),
                      Sub("tools", tcase(), tools, 500, 40000), Sub("noisescale", ncase(), noise, 250, 20000), Sub("bspline", scase(), bsp, 200, 10000)], RULE))
