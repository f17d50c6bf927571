from expr import *
from pbt import *
from astropy import units as u

RULE = ("Models of the catalogue, with a random subset of parameters fixed, chained with + - * and brackets, or with a "
        "parameter replaced by another model: the same curve expressed in two systems of units; parameters converted "
        "with getParameterUnit have to yield the same curve. Non-trivial: the curve is not 0 and at least one parameter "
        "changes value.")

X = [(u.m, [u.km, u.cm, u.m]), (u.s, [u.ms, u.min, u.s]), (u.K, [u.mK, u.K, u.K])]
Y = (u.kg, [u.g, u.kg, u.t])
# Power(Law) is documented to leave out a factor; Chebyshev needs x in [-1,1]; no units known in Astropy, User
NOUNIT = ["Power", "PowerLaw", "Chebyshev", "Astropy", "User", "UserNumeric"]
NAMES = [n for n in sorted(S) if n not in NOUNIT]


def system(ix, iy, nd):
    """units and value factors of the second system"""
    xu = [X[d][1][ix[d]] for d in range(nd)]
    return xu, Y[1][iy], [X[d][0].to(xu[d]) for d in range(nd)], Y[0].to(Y[1][iy])


def scaled(name, cfg, ax, by):
    """configuration of the model in the other units"""
    c = dict(cfg)
    if name in ("Harmonic", "HarmonicDynamic"):
        c["period"] *= ax[0]
    if name in ("SineAmp", "PolySineAmp", "SineSpline"):
        c["f"] /= ax[0]
    if "knots" in c:
        c["knots"] = [k * ax[0] for k in c["knots"]]
    if name == "SurfaceSplines":
        c["kx"], c["ky"] = [k * ax[0] for k in c["kx"]], [k * ax[1] for k in c["ky"]]
    if name == "FreeShape":
        c["xhi"] *= ax[0]
    if name == "Constant":
        c["v"] *= by
    if name == "Combi":
        c["add"] = {k: [w * (by if k == "0" else ax[0]) for w in v] for k, v in c["add"].items()}
    return c


def dimless(name, cfg):
    return name == "Football" or (name == "SoftMax" and cfg["normed"])


def setunits(m, xu, yu, nd):
    m.xUnit = xu[0] if nd == 1 else xu
    m.yUnit = yu


def convert(m1, m2, p):
    return A([v * (m1.getParameterUnit(k) / m2.getParameterUnit(k)).to(u.dimensionless_unscaled) for k, v in enumerate(p)])


def same(m1, m2, x, p, ax, by, nd, what):
    ok(m1.npars == len(p), "%s: %d parameters" % (what, m1.npars))
    for k in range(len(p)):
        ok(isinstance(m1.getParameterUnit(k), u.UnitBase), "%s: unit of parameter %d is %r" % (what, k, m1.getParameterUnit(k)))
    q = convert(m1, m2, p)
    f1 = A(m1.result(x, p.copy()))
    x2 = x if x.dtype.kind == "i" else (x * ax[0] if nd == 1 else x * A(ax[:nd]))
    f2 = A(m2.result(x2, q.copy()))
    if not numpy.all(numpy.isfinite(f1)):
        raise Skip("not finite")
    by = A(by)
    sc = numpy.max(numpy.abs(f1 * by)) + 1e-9 * numpy.max(by)
    ok(numpy.allclose(f1 * by, f2, rtol=1e-6, atol=1e-6 * sc), "%s: in other units %s, expected %s; units %s" %
       (what, f2, f1 * by, [str(m2.getParameterUnit(k)) for k in range(len(p))]))
    return bool(numpy.any(f1 != 0)) and not numpy.allclose(p, q)


def kinked(s, c, x, p):
    return s.kink is not None and bool(numpy.any(s.kink(c, x, p)))


def simple(t):
    case, ix, iy, sel = t
    s, c = S[case["m"]], case["cfg"]
    x, p = xarr(case), A(case["p"])
    if kinked(s, c, x, p):
        raise Skip("at a discontinuity")
    nd = s.ndim(c)
    if case["m"] == "Kernel2d" and c["s"] != 2:
        ix = [ix[0]] * 3                        # one width, or rotation, needs same units along both axes
        X2 = [X[0]] * 2
        x2u = [X[0][1][ix[0]]] * 2
        xu1, xu, yu = [X[0][0]] * 2, x2u, Y[1][iy]
        ax, by = [X[0][0].to(v) for v in x2u], Y[0].to(yu)
    else:
        xu, yu, ax, by = system(ix, iy, nd)
        xu1 = [X[d][0] for d in range(nd)]
    y1 = Y[0]
    if dimless(case["m"], c):
        y1 = yu = u.Unit(1.0)
        by = 1.0
    if case["m"] == "Football":
        xu1, xu, ax = [u.Unit(1.0)] * 2, [u.Unit(1.0)] * 2, [1, 1]
    c2 = scaled(case["m"], c, ax, by)
    m1, m2 = s.make(c), s.make(c2)
    setunits(m1, xu1, y1, nd)
    setunits(m2, xu, yu, nd)
    if case["m"] == "StellarOrbit" and c["sph"]:
        by = [by, 1.0]
    ntv = same(m1, m2, x, p, ax, by, nd, case["m"])
    iu = y1
    for d in range(nd):
        iu = iu * xu1[d]
    ok(m1.getIntegralUnit() == iu, "%s: unit of the integral is %s, expected %s" % (case["m"], m1.getIntegralUnit(), iu))
    cp = m1.copy()
    ok([cp.getParameterUnit(k) for k in range(len(p))] == [m1.getParameterUnit(k) for k in range(len(p))],
       "%s: copy has other units" % case["m"])
    for f in (m1.getParameterUnit, m1.getParameterName):
        try:
            r = f(len(p))
        except IndexError:
            pass
        else:
            fail("%s: %s( %d ) = %r for %d parameters" % (case["m"], f.__name__, len(p), r, len(p)))
    # some fixed
    fix = sorted(set(k % len(p) for k in sel)) if len(p) else []
    if s.fixable and 0 < len(fix) < len(p):
        q = convert(m1, m2, p)
        rest = [k for k in range(len(p)) if k not in fix]
        f1, f2 = s.make(c, fixed={k: float(p[k]) for k in fix}), s.make(c2, fixed={k: float(q[k]) for k in fix})
        setunits(f1, xu1, y1, nd)
        setunits(f2, xu, yu, nd)
        what = "%s with fixed %s" % (case["m"], fix)
        for j, k in enumerate(rest):
            ok(f1.getParameterUnit(j) == m1.getParameterUnit(k), "%s: unit of parameter %d is %s, expected %s" %
               (what, j, f1.getParameterUnit(j), m1.getParameterUnit(k)))
            if not m1.getParameterName(k).startswith("parameter_"):
                ok(f1.getParameterName(j) == m1.getParameterName(k), "%s: parameter %d is called %s, expected %s" %
                   (what, j, f1.getParameterName(j), m1.getParameterName(k)))
        same(f1, f2, x, p[rest], ax, by, nd, what)
    return dict(nontrivial=ntv, features=[case["m"]] + (["fixed"] if fix and s.fixable else []))


# --- compound models
ONE = [n for n in NAMES if n not in ("Football", "SoftMax", "Kernel2d", "StellarOrbit") and
       n not in ("EtalonDrift", "PolySineAmp", "PolySurface", "SurfaceSplines", "Product", "Constant",
                 "PolynomialDynamic", "HarmonicDynamic", "Repeating", "FreeShape")]       # one dynamic model at most; domain


@st.composite
def chain(draw, depth=1):
    n = draw(st.integers(2, 3))
    out = []
    for i in range(n):
        op = draw(st.sampled_from(["+", "-", "*"]))
        if depth and i and draw(st.integers(0, 3)) == 0:
            out.append([op, draw(chain(depth=0))])
        else:
            name = draw(st.sampled_from(ONE))
            c = draw(S[name].cfg)
            out.append([op, dict(m=name, cfg=c, p=draw(S[name].pars(c)))])
    return out


def build(ch, ax, by, pars=None):
    """model and its parameters; factors are dimensionless"""
    m, pp = None, []
    for op, e in ch:
        b = 1.0 if (op == "*" and m is not None) else by
        if isinstance(e, list):
            w, p = build(e, ax, b)
        else:
            c = scaled(e["m"], e["cfg"], ax, b)
            w, p = S[e["m"]].make(c), list(e["p"])
        pp += p
        if m is None:
            m = w
        elif op == "+":
            m = m + w
        elif op == "-":
            m = m - w
        else:
            m = m * w
    return m, pp


def flat(ch, dim=True):
    """names of the simple models with flag whether it has the dimension of the data"""
    for i, (op, e) in enumerate(ch):
        d = dim and not (op == "*" and i > 0)
        if isinstance(e, list):
            yield from flat(e, d)
        else:
            yield e, d


def compound(t):
    ch, x, ix, iy = t
    x = A(x)
    xu, yu, ax, by = system([ix], iy, 1)
    for e, d in flat(ch):
        if kinked(S[e["m"]], e["cfg"], x, A(e["p"])):
            raise Skip("at a discontinuity")
    m1, p = build(ch, [1.0], 1.0)
    m2, _ = build(ch, ax, by)
    p = A(p)
    m1.xUnit, m1.yUnit = X[0][0], Y[0]
    m2.xUnit, m2.yUnit = xu[0], yu
    what = m1.shortName()
    with numpy.errstate(all="ignore"):
        ntv = same(m1, m2, x, p, ax, by, 1, what)
    # each parameter is the one of the constituent
    n = 0
    for e, d in flat(ch):
        s = S[e["m"]].make(e["cfg"])
        s.xUnit, s.yUnit = X[0][0], Y[0] if d else u.Unit(1.0)
        for k in range(s.npars):
            ok(m1.getParameterUnit(n) == s.getParameterUnit(k), "%s: unit of parameter %d is %s, expected %s (%s)" %
               (what, n, m1.getParameterUnit(n), s.getParameterUnit(k), e["m"]))
            ok(m1.getParameterName(n) == s.getParameterName(k), "%s: parameter %d is called %s, expected %s (%s)" %
               (what, n, m1.getParameterName(n), s.getParameterName(k), e["m"]))
            n += 1
    ok(n == m1.npars, "%s: has %d parameters" % (what, m1.npars))
    return dict(nontrivial=ntv, features=[op for op, e in ch[1:]] + ["brackets" for op, e in ch if isinstance(e, list)])


# --- parameters replaced by models
HOST = ["Arctan", "Gauss", "Lorentz", "Sine", "SinePhase", "SineDrift", "Voigt", "Exp", "Logistic", "Polynomial", "PseudoVoigt"]


def replaced(t):
    case, which, deg_, coef, ix, iy = t
    s = S[case["m"]]
    x, p = xarr(case), A(case["p"])
    if len(p) == 0:
        raise Skip("no parameters")
    ks = sorted(set(k % len(p) for k in which))
    xu, yu, ax, by = system([ix], iy, 1)
    mods = [{k: bf.PolynomialModel(deg_) for k in ks} for i in (0, 1)]
    m1, m2 = s.make(case["cfg"], fixed=mods[0]), s.make(case["cfg"], fixed=mods[1])
    setunits(m1, [X[0][0]], Y[0], 1)
    setunits(m2, xu, yu, 1)
    pl = [p[k] for k in range(len(p)) if k not in ks]
    for k in ks:
        pl += [p[k]] + [c * 0.1 for c in coef[:deg_]]
    with numpy.errstate(all="ignore"):
        ntv = same(m1, m2, x, A(pl), ax, by, 1, "%s with %s replaced by a polynomial" % (case["m"], ks))
    return dict(nontrivial=ntv, features=["%d replaced" % len(ks)])


# --- wrappers of compound models
def wrapped(t):
    kind, name, deg_, p, x, ix, iy, op = t
    nr = 2
    xu, yu, ax, by = system([ix, 1], iy, 2)

    def one():
        g = getattr(bf, name + "Model")()
        return g + bf.PolynomialModel(deg_) if op else g

    def make():
        if kind == "repeat":
            return bf.RepeatingModel(nr, one())
        if kind == "combi":
            return bf.CombiModel(one(), nr)
        if kind == "product":
            return bf.ProductModel([one(), one()])
        return bf.PolynomialModel(1) + bf.BracketModel(one()) if hasattr(bf, "BracketModel") else bf.PolynomialModel(1) + one()

    m1, m2 = make(), make()
    nd = 2 if kind == "product" else 1
    setunits(m1, [X[0][0], X[1][0]][:nd], Y[0], nd)
    setunits(m2, xu[:nd], yu, nd)
    if len(p) < m1.npars:
        raise Skip("too few numbers")
    x = A(x)
    x = x.reshape(-1, 2)[:, :nd] if nd == 2 else x
    with numpy.errstate(all="ignore"):
        ntv = same(m1, m2, x, A(p[:m1.npars]), ax[:nd], by, nd, "%s %s" % (kind, m1.shortName()))
    names = [m1.getParameterName(k) for k in range(m1.npars)]
    if not op and kind != "brackets":
        ok(len(set(names)) == len(names), "%s: parameters have the same name %s" % (kind, names))
    return dict(nontrivial=ntv, features=[kind])


def sspline(t):
    """names of direct products carry the indices along the axes"""
    n = [len(t[0]) + t[2] - 1, len(t[1]) + t[2] - 1]
    m = bf.SurfaceSplinesModel([t[0], t[1]], order=t[2])
    sx, sy = bf.SplinesModel(knots=t[0], order=t[2]), bf.SplinesModel(knots=t[1], order=t[2])
    x = A([[0.3, -0.4], [2.1, 1.7]])
    part = m.partial(x, A([0.0] * (n[0] * n[1])))
    px, py = sx.partial(x[:, 0], sx.parameters), sy.partial(x[:, 1], sy.parameters)
    for k in range(m.npars):
        i, j = [int(v) for v in m.getParameterName(k).split("_")[1:]]
        ok(i < n[0] and j < n[1] and numpy.allclose(part[:, k], px[:, i] * py[:, j]), "SurfaceSplines: parameter %d is called %s" %
           (k, m.getParameterName(k)))
    return True


if __name__ == "__main__":
    units3 = st.lists(st.integers(0, 2), min_size=3, max_size=3)
    kn = st.integers(2, 4).map(lambda n: [round(-3 + 6 * i / (n - 1), 2) for i in range(n)])
    sys.exit(main("C30", [
        Sub("models", st.sampled_from(NAMES).flatmap(lambda n: st.tuples(
            S[n].case(), units3, st.integers(0, 2), st.lists(st.integers(0, 9), min_size=0, max_size=3))), simple, 2200, 25000),
        Sub("compound", st.tuples(chain(), st.lists(fl(0.05, 2.9), min_size=1, max_size=5), st.integers(0, 2), st.integers(0, 2)),
            compound, 900, 12000),
        Sub("replaced", st.sampled_from(HOST).flatmap(lambda n: st.tuples(
            S[n].case(), st.lists(st.integers(0, 9), min_size=1, max_size=2), st.integers(0, 2), fls(-1, 1, 3),
            st.integers(0, 2), st.integers(0, 2))), replaced, 500, 8000),
        Sub("wrapped", st.tuples(st.sampled_from(["repeat", "combi", "product", "brackets"]),
                                 st.sampled_from(["Gauss", "Lorentz", "Sine", "Exp", "Arctan"]), st.integers(0, 2),
                                 st.lists(fl(0.2, 2), min_size=12, max_size=12), fls(-2, 2, 4), st.integers(0, 2),
                                 st.integers(0, 2), st.booleans()), wrapped, 400, 5000),
        Sub("splinenames", st.tuples(kn, kn, st.integers(1, 3)), sspline, 15, 100),
    ], RULE))
