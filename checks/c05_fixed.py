from expr import *
from pbt import *
from c02_partial import check_model as check_partial
from c03_derivative import check_model as check_deriv, H

RULE = ("Per model class: a random subset of the parameters is fixed at constants (by positive or negative index) or replaced "
        "by another (possibly compound, possibly parameterless) model; compared pointwise with the unfixed model, derivatives "
        "with finite differences. Non-trivial: at least one parameter is fixed and the result is finite.")

REPL = ["Polynomial", "Gauss", "Sine", "Exp", "Constant", "Logistic", "Arctan"]


def small(e):
    """replacing model: tame values"""
    return e


def close(got, exp, what, tol=1e-9):
    got, exp = A(got), A(exp)
    ok(got.shape == exp.shape, "%s: shape %s, expected %s" % (what, got.shape, exp.shape))
    sc = 1 + numpy.max(numpy.abs(exp)) if exp.size else 1
    ok(numpy.all(numpy.abs(got - exp) <= tol * sc), "%s: got %s, expected %s" % (what, got.tolist(), exp.tolist()))


def constcase(s):
    def f(c):
        n = len(c["p"])
        return st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n).flatmap(
            lambda fx: st.lists(st.booleans(), min_size=len(fx), max_size=len(fx)).map(
                lambda neg: dict(c, fix=fx, neg=neg)))
    return s.case().filter(lambda c: len(c["p"]) >= 1).flatmap(f)


def runconst(case):
    s = S[case["m"]]
    x, full = xarr(case), A(case["p"])
    n = len(full)
    free = [k for k in range(n) if k not in case["fix"]]
    fx = {(k - n if ng else k): float(full[k]) for k, ng in zip(case["fix"], case["neg"])}
    m0 = s.make(case["cfg"])
    m = s.make(case["cfg"], fixed=dict(fx))
    what = "%s fixed %s" % (case["m"], fx)
    ok(m.npchain == len(free) and m.npbase == len(free) and len(m.parameters) == len(free),
       "%s: %d parameters, expected %d" % (what, m.npchain, len(free)))
    ok(numpy.array_equal(m.parameters, A(m0.parameters)[free]), "%s: initial parameters %s" % (what, m.parameters))
    got = [m.getParameterName(k) for k in range(len(free))]
    exp = [m0.getParameterName(k) for k in free]
    # models that number their parameters are numbered again; names given explicitly stay with their parameter
    ok(got == exp or any("_" in e for e in exp), "%s: names %s, expected %s" % (what, got, exp))
    p = full[free]
    r0 = m0.result(x, full.copy())
    if not numpy.all(numpy.isfinite(r0)):
        raise Skip("not finite")
    close(m.result(x, p), r0, what + ": result")
    m.parameters = p
    close(m(x), r0, what + ": call")
    if s.partial:
        p0 = m0.partial(x, full.copy())
        p1 = m.partial(x, p.copy())
        if isinstance(p0, list):
            for o in range(len(p0)):
                close(A(p1[o]), A(p0[o])[:, free], what + ": partial %d" % o)
        else:
            close(A(p1), A(p0)[:, free], what + ": partial", 1e-9 if case["m"] != "UserNumeric" else 1e-4)
    if s.deriv:
        d0, d1 = m0.derivative(x, full.copy()), m.derivative(x, p.copy())
        with numpy.errstate(all="ignore"):
            if numpy.all(numpy.isfinite(A(d0))):
                close(A(d1), A(d0), what + ": derivative")
    # in a compound too
    if s.ndim(case["cfg"]) == 1 and s.ndout(case["cfg"]) == 1 and s.compound:
        c = s.make(case["cfg"], fixed=dict(fx)) + bf.PolynomialModel(1)
        close(c.result(x, numpy.append(p, [0.5, 2.0])), r0 + 0.5 + 2 * x, what + " + poly: result")
    try:
        m.fixed = {}
    except AttributeError:
        pass
    else:
        fail("fixed can be assigned after construction")
    return "const %s%s" % ("all" if not free else "some", " neg" if any(case["neg"]) else "")


def modelcase(s):
    rep = st.one_of(leaf(REPL), leaf(REPL), expr1(maxlen=2, depth=0, ops="+*", fixed=False, leaves=REPL))

    def f(c):
        n = len(c["p"])
        return st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=min(n, 3)).flatmap(
            lambda fx: st.lists(st.one_of(rep, st.just(None)), min_size=len(fx), max_size=len(fx)).map(
                lambda r: dict(c, fix=fx, rep=r)))
    return s.case().filter(lambda c: len(c["p"]) >= 1).flatmap(f).filter(lambda c: any(r is not None for r in c["rep"]))


def runmodel(case):
    s = S[case["m"]]
    cfg = case["cfg"]
    x, full = xarr(case), A(case["p"])
    n = len(full)
    fx = {}
    for k, r in zip(case["fix"], case["rep"]):
        fx[k] = float(full[k]) if r is None else build(r)
    reps = [(k, r) for k, r in zip(case["fix"], case["rep"]) if r is not None]
    free = [k for k in range(n) if k not in case["fix"]]
    what = "%s with %s" % (case["m"], {k: (show(r) if r is not None else full[k]) for k, r in zip(case["fix"], case["rep"])})
    P = A(list(full[free]) + sum([pars(r) for k, r in reps], []))
    m = s.make(cfg, fixed=fx)
    ok(m.npchain == len(P) and len(m.parameters) == len(P), "%s: %d parameters, expected %d" % (what, m.npchain, len(P)))
    # pointwise reference
    m0 = s.make(cfg)
    vals = {k: ref(r, x) for k, r in reps}
    bad = DOMAIN.get(case["m"])
    rows, kink = [], []
    for i in range(len(x)):
        pi = full.copy()
        for k, v in vals.items():
            pi[k] = v[i]
        if not domain_ok(case["m"], m0, pi, full, x[i]):
            raise Skip("replaced parameter out of its domain")
        with numpy.errstate(all="ignore"):
            if s.kink:
                kink.append(any(bool(s.kink(cfg, x[i:i + 1] + d, pi)[0]) for d in (0, -2 * H, 2 * H)))
            rows.append(float(m0.result(x[i:i + 1], pi)[0]))
    exp = A(rows)
    kink = numpy.array(kink) if s.kink else None
    if not numpy.all(numpy.isfinite(exp)) or numpy.max(numpy.abs(exp)) > 1e5:
        raise Skip("result not finite")
    P0 = P.copy()
    close(m.result(x, P), exp, what + ": result")
    ok(numpy.array_equal(P, P0), what + ": parameters changed")
    for k, r in reps:
        ok(numpy.allclose(fx[k].parameters, pars(r)), what + ": replacing model changed")
    c = s.make(cfg, fixed={k: (full[k] if r is None else build(r)) for k, r in zip(case["fix"], case["rep"])})
    c = c + bf.PolynomialModel(1)
    close(c.result(x, numpy.append(P, [0.5, 2.0])), exp + 0.5 + 2 * x, what + " + poly: result")
    tol = 1e-5 * s.tol if case["m"] != "UserNumeric" else 3e-4
    if len(P) and s.partial:
        check_partial(m, P, x, kink, tol, what)
    if s.deriv:
        check_deriv(m, P, x, None if kink is None else ~kink, 3e-4, what)
    return "model%s%s" % (" par-less" if any(len(pars(r)) == 0 for k, r in reps) else "",
                          " mixed" if len(reps) < len(fx) else "")


DOMAIN = {}


def domain_ok(name, m0, p, full, xi):
    if name == "PowerLaw" and xi - p[1] < 0.1:
        return False
    # keep positive / nonzero parameters well inside their domain, the others not too wild
    for k in range(len(p)):
        if k in m0.posIndex and p[k] < 0.05:
            return False
        if k in m0.nonZero and abs(p[k]) < 0.05:
            return False
        if p[k] != full[k] and abs(p[k]) > 5:
            return False
        # same sign as a sane value for scale like parameters
        if p[k] < 0.05 and p[k] != full[k] and name in POSITIVE:
            return False
    return True


POSITIVE = ("Power", "Voigt", "PseudoVoigt", "Kernel", "Logistic", "RadialVelocity", "StellarOrbit", "Power1", "Kepler", "Astropy")

SKIPM = ("UserNumeric",)
MODS = [n for n, s in S.items() if s.fixable and s.ndim_ == 1 and s.ndout_ == 1 and n not in ("Power", "FreeShape", "RadialVelocity")]


class Bare(bf.NonLinearModel):
    """a user class that defines its result only"""
    def __init__(self, copy=None, **kwargs):
        super().__init__(3, copy=copy, names=["a", "b", "c"], **kwargs)

    def copy(self):
        return Bare(copy=self)

    def baseResult(self, xdata, params):
        return params[0] * numpy.sin(params[1] * xdata) + params[2] * xdata * xdata

    def baseName(self):
        return "Bare"


add("Bare", lambda c, **k: Bare(**k), none, 3, lambda c: fls(-2, 2, 3), lambda c: x1(-2, 2),
    ref=lambda c, x, p: p[0] * numpy.sin(p[1] * x) + p[2] * x * x)

subs = [Sub(n + "-const", constcase(s), runconst, quick=50) for n, s in S.items() if s.fixable]
subs += [Sub(n + "-model", modelcase(S[n]), runmodel, quick=60) for n in MODS + ["Bare"]]

if __name__ == "__main__":
    sys.exit(main("C05", subs, RULE))
