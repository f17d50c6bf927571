from expr import *
from pbt import *

RULE = ("Per model class (plain and with a random subset of parameters fixed), per pipe dimensionality and for random "
        "model expressions: analytic partial vs. 4th order central differences of the result. Non-trivial: at least one "
        "smooth input point and a non-zero derivative.")


def check_model(m, p, x, skipmask, tol, what):
    r = m.result(x, p.copy())
    if not numpy.all(numpy.isfinite(r)):
        raise Skip("result not finite")
    num = numgrad(lambda q: m.result(x, q), p)
    err = [n[1] for n in num]
    num = [n[0] for n in num]
    if not all(numpy.all(numpy.isfinite(n)) for n in num):
        raise Skip("numerical derivative not finite")
    x0, p0 = x.copy(), p.copy()
    part = m.partial(x, p)
    ok(numpy.array_equal(x, x0), what + ": partial changed the input")
    ok(numpy.allclose(p, p0), what + ": partial changed the parameters")
    r = A(r)
    outs = part if isinstance(part, (list, tuple)) else [part]
    nout = r.shape[1] if r.ndim == 2 else 1
    ok(len(outs) == nout, "%s: %d partials for %d outputs" % (what, len(outs), nout))
    keep = numpy.ones(len(x), dtype=bool) if skipmask is None else ~skipmask
    nz_ = False
    for o, pt in enumerate(outs):
        ok(numpy.shape(pt) == (len(x), len(p)), "%s: partial has shape %s, expected %s" %
           (what, numpy.shape(pt), (len(x), len(p))))
        for k in range(len(p)):
            n = num[k] if r.ndim == 1 else num[k][:, o]
            sc = 1.0 + numpy.max(numpy.abs(r)) + numpy.max(numpy.abs(n))
            if keep.any():
                compare(pt[keep, k], n[keep], sc, tol, "%s: partial %d (output %d)" % (what, k, o),
                        (err[k] if r.ndim == 1 else err[k][:, o])[keep])
                nz_ |= bool(numpy.any(n[keep] != 0))
    if keep.all():
        numeric(m, p, x, num, err, r, what)
    return nz_


def numeric(m, p, x, num, err, r, what):
    """the numerical partials, which are meant to check the others"""
    nout = r.shape[1] if r.ndim == 2 else 1

    def outs(v):
        ok((isinstance(v, list) and len(v) == nout) if nout > 1 else not isinstance(v, list), "%s: %s for %d outputs" % (what, type(v), nout))
        return v if nout > 1 else [v]

    sel = list(range(0, len(p), 2))[::-1]
    for name, v in (("numPartial", m.numPartial(x, p)), ("strictNumericPartial", m.strictNumericPartial(x, p)), ("strictNumericPartial of %s" % sel, m.strictNumericPartial(x, p, parlist=sel))):
        ks = sel if " of " in name else range(len(p))
        for o, pt in enumerate(outs(v)):
            for j, k in enumerate(ks):
                n, e = (num[k], err[k]) if r.ndim == 1 else (num[k][:, o], err[k][:, o])
                sc = 1.0 + numpy.max(numpy.abs(r)) + max(numpy.max(numpy.abs(w)) for w in num)
                compare(A(pt)[:, j], n, sc, 2e-4, "%s: %s %d (output %d)" % (what, name, k, o), e)
    nt = m.testPartial(x, p)
    with numpy.errstate(all="ignore"):
        dev = 0.0
        pairs = [(m.partial(x, p), m.strictNumericPartial(x, p))]
        try:
            pairs.append((m.derivative(x, p), m.strictNumericDerivative(x, p)))
        except NotImplementedError:
            pass
        for a, b in pairs:
            if a is not None:
                a, b = A(a), A(b)
                dev = max(dev, numpy.max(numpy.abs(a - b) / numpy.maximum(numpy.abs(a + b), 1.0)))
    if abs(dev - 1e-3) > 1e-4:
        ok((nt > 0) == (dev > 1e-3), "%s: testPartial finds %d deviations while the largest is %g" % (what, nt, dev))


def run(case):
    s = S[case["m"]]
    x, p = xarr(case), A(case["p"])
    m = s.make(case["cfg"])
    mask = s.kink(case["cfg"], x, p) if s.kink else None
    tol = 1e-6 * s.tol * (100 if case["m"] in ("RadialVelocity", "StellarOrbit") else 1)
    if case["m"] == "UserNumeric":
        tol = 1e-4
    t = check_model(m, p, x, mask, tol, case["m"])
    if mask is not None and mask.all():
        raise Skip("all on a kink")
    return "plain" if t else None


def fixcase(s):
    def f(c):
        n = len(c["p"])
        return st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=max(1, n - 1)).map(
            lambda fx: dict(c, fix=sorted(fx)))
    return s.case().filter(lambda c: len(c["p"]) > 1).flatmap(f)


def runfixed(case):
    s = S[case["m"]]
    x = xarr(case)
    m = build_leaf(case)
    p = A(freepars(case))
    ok(m.npchain == len(p), "npchain %d for %d free parameters" % (m.npchain, len(p)))
    mask = s.kink(case["cfg"], x, A(case["p"])) if s.kink else None
    tol = 1e-6 * s.tol * (100 if case["m"] in ("RadialVelocity", "StellarOrbit") else 1)
    if case["m"] == "UserNumeric":
        tol = 1e-4
    t = check_model(m, p, x, mask, tol, case["m"] + " fixed %s" % case["fix"])
    return "fixed" if t else None


def runexpr(case):
    e, x = case["e"], A(case["x"])
    p = A(pars(e))
    if len(p) == 0:
        raise Skip("no parameters")
    r = ref(e, x)
    m = build(e, case.get("how", 0))
    # stay clear of kinks reached through pipes
    with numpy.errstate(all="ignore"):
        ref(e, x + 1e-4)
    t = check_model(m, p, x, None, 2e-6, show(e))
    return ("nested" if nested(e) else "pipe" if hasop(e, "|") else "chain") if t else None


NOSPL = [n for n in LEAF1 if n != "Splines"]


def pipes():
    """all dimensionality combinations of SoftMax piped into SoftMax or 1-d models, then more"""
    def sm(ndim, ndout):
        return st.fixed_dictionaries(dict(ndim=st.just(ndim), ndout=st.just(ndout), offset=st.booleans(),
                                          normed=st.booleans())).flatmap(
            lambda c: fls(-1.5, 1.5, _n(c)).map(lambda p: dict(m="SoftMax", cfg=c, p=p)))

    def _n(c):
        return S["SoftMax"].npars(c)

    def mk(t):
        nd, ni, no = t
        first = st.one_of(sm(nd, ni), leaf(LEAF2)) if (nd == 2 and ni == 1) else sm(nd, ni)
        second = sm(ni, no) if not (ni == 1 and no == 1) else st.one_of(sm(1, 1), leaf(PIPE1))
        third = st.one_of(st.none(), sm(no, 1), sm(no, 2), leaf(PIPE1) if no == 1 else sm(no, 1))
        xs = x1(-1.5, 1.5) if nd == 1 else x2(-1.5, 1.5, dim=nd)
        return st.tuples(first, second, third, xs).map(
            lambda q: dict(e=[q[0], ["|", q[1]]] + ([["|", q[2]]] if q[2] else []), x=q[3]))
    return st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).flatmap(mk)


def runpipe(case):
    e, x = case["e"], A(case["x"])
    p = A(pars(e))
    m = build(e)
    r = ref(e, x)
    got = A(m.result(x, p))
    if r.ndim == 2 and r.shape[1] == 1:
        r = r[:, 0]
    ok(got.shape == r.shape and numpy.allclose(got, r, atol=1e-8), "%s: result of the pipe is %s, expected %s" % (show(e), got, r))
    check_model(m, p, x, None, 2e-6, show(e))
    d = "%d-%d-%d" % (e[0]["cfg"].get("ndim", 2), S[e[1][1]["m"]].ndim(e[1][1]["cfg"]), S[e[1][1]["m"]].ndout(e[1][1]["cfg"]))
    return "pipe " + d


def multi():
    """models with more outputs, combined"""
    def sm(t):
        return st.fixed_dictionaries(dict(ndim=st.just(t[0]), ndout=st.just(t[1]), offset=st.booleans(), normed=st.booleans())).flatmap(
            lambda c: fls(-1.5, 1.5, S["SoftMax"].npars(c)).map(lambda p: dict(m="SoftMax", cfg=c, p=p)))

    def one(t):
        so = st.booleans().flatmap(lambda b: S["StellarOrbit"].pars(dict(sph=False)).map(lambda p: dict(m="StellarOrbit", cfg=dict(sph=False), p=p)))
        return st.one_of(sm(t), so) if t == (1, 2) else sm(t)

    def mk(t):
        return st.fixed_dictionaries(dict(
            e=st.tuples(one(t), st.lists(st.tuples(st.sampled_from("+-*/"), one(t)).map(list), min_size=1, max_size=3), st.booleans()).map(
                lambda q: [q[0]] + (q[1] if len(q[1]) < 2 or not q[2] else q[1][:-2] + [[q[1][-2][0], [q[1][-2][1], q[1][-1]]]])),
            x=x1(-1.5, 1.5) if t[0] == 1 else x2(-1.5, 1.5, dim=t[0]), how=st.integers(0, 2)))
    return st.sampled_from([(1, 2), (1, 3), (2, 2), (2, 3), (3, 2)]).flatmap(mk)


def runmulti(case):
    e, x = case["e"], A(case["x"])
    r = ref(e, x)
    m = build(e, case["how"])
    p = A(pars(e))
    tol = 2e-6
    if any(l["m"] == "StellarOrbit" for l in leaves(e)):
        tol = 2e-4
    got = A(m.result(x, p))
    ok(got.shape == r.shape and numpy.allclose(got, r, rtol=tol, atol=tol * (1 + numpy.max(numpy.abs(r)))), "%s: result is %s, expected %s" % (show(e), got, r))
    check_model(m, p, x, None, tol, show(e))
    return "multi %d-%d" % (1 if x.ndim == 1 else x.shape[1], r.shape[1])


subs = [Sub(n, s.case(), run, quick=60) for n, s in S.items() if n != "Constant"]
subs += [Sub(n + "-fixed", fixcase(s), runfixed, quick=40) for n, s in S.items() if s.fixable and n not in ("Power",)]
for k in ALLK:
    c = st.fixed_dictionaries(dict(m=st.just("Kernel"), cfg=st.just(dict(k=k)), p=S["Kernel"].pars(dict(k=k)),
                                   x=x1(lo_n=3)))
    subs.append(Sub("Kernel-" + k, c, run, quick=40))
for k in K2D:
    for sh in (1, 2, 3):
        cc = dict(k=k, s=sh)
        c = st.fixed_dictionaries(dict(m=st.just("Kernel2d"), cfg=st.just(cc), p=S["Kernel2d"].pars(cc),
                                       x=x2(lo_n=3)))
        subs.append(Sub("Kernel2d-%s-%d" % (k, sh), c, run, quick=40))
for cx in range(1, 6):
    cc = st.integers(2, 4).map(lambda n, cx=cx: dict(nteams=n, cx=cx))
    subs.append(Sub("Football-%d" % cx, cc.flatmap(lambda c: st.fixed_dictionaries(dict(
        m=st.just("Football"), cfg=st.just(c), p=_p(c), x=S["Football"].xs(c)))), run, quick=60))


def _p(c):
    return S["Football"].pars(c)


H = st.integers(0, 2)
subs.append(Sub("expr1-a", st.fixed_dictionaries(dict(e=expr1(leaves=NOSPL), x=x1(-2, 2), how=H)), runexpr, quick=250))
subs.append(Sub("expr1-b", st.fixed_dictionaries(dict(e=expr1(maxlen=3, depth=2, leaves=NOSPL), x=x1(-2, 2, lo_n=2), how=H)), runexpr, quick=250))
subs.append(Sub("expr1-nopipe", st.fixed_dictionaries(dict(e=expr1(ops="+-*/", leaves=NOSPL), x=x1(-2, 2, lo_n=2), how=H)), runexpr, quick=250))
subs.append(Sub("expr2", st.fixed_dictionaries(dict(e=expr2(), x=x2(-1.5, 1.5), how=H)), runexpr, quick=200))
subs.append(Sub("pipes", pipes(), runpipe, quick=300))


def wrong(case):
    """testPartial finds an error"""
    from BayesicFitting.source.NonLinearModel import NonLinearModel

    class Wrong(NonLinearModel):
        def __init__(self, copy=None, **k):
            super().__init__(3, copy=copy, **k)

        def copy(self):
            return Wrong(copy=self)

        def baseResult(self, x, p):
            return p[0] * numpy.exp(p[1] * x) + p[2] * x * x

        def basePartial(self, x, p, parlist=None):
            d = numpy.stack([numpy.exp(p[1] * x), p[0] * x * numpy.exp(p[1] * x), x * x], axis=1)
            if case["t"] == "p":
                d[case["i"] % len(x), case["k"]] += case["d"]
            return d if parlist is None else d[:, parlist]

        def baseDerivative(self, x, p):
            d = p[0] * p[1] * numpy.exp(p[1] * x) + 2 * p[2] * x
            if case["t"] == "x":
                d[case["i"] % len(x)] += case["d"]
            return d

    m = Wrong()
    e = case["t"]
    if case["add"]:
        m = m + bf.PolynomialModel(1) if case["add"] == 1 else bf.PolynomialModel(1) + m
    x, p = A(case["x"]), A(case["p"])[:m.npars]
    n = m.testPartial(x, p)
    ok((n > 0) == (e in "px"), "testPartial finds %d deviations in a model with %s" % (n, "an error" if e in "px" else "no error"))
    return "error" if n else "correct"


subs.append(Sub("testPartial", st.fixed_dictionaries(dict(t=st.sampled_from(["p", "x", "o"]), i=st.integers(0, 30), k=st.integers(0, 2), d=st.sampled_from([-0.5, 0.5, 0.1, 3.0]),
                                                          add=st.integers(0, 2), x=st.lists(fl(-2, 2), min_size=1, max_size=25), p=st.lists(fl(-1, 1), min_size=5, max_size=5))), wrong, quick=100))
subs.append(Sub("multi", multi(), runmulti, quick=250))

if __name__ == "__main__":
    sys.exit(main("C02", subs, RULE))
