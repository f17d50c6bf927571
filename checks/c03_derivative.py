from expr import *
from pbt import *

RULE = ("Per model class (plain, with fixed numbers, or with models in place of parameters) and for random model "
        "expressions: derivative() vs. 4th order central differences of the result to x. Non-trivial: at least one "
        "smooth input point where the derivative is not zero.")

H = 4e-4


def numdx(f, x, h=H):
    """list over input dimensions of (value, error)"""
    if x.ndim == 1:
        return [richardson(lambda d: A(f(x + d)), h)]
    out = []
    for k in range(x.shape[1]):
        e = numpy.zeros(x.shape[1])
        e[k] = 1.0
        out.append(richardson(lambda d: A(f(x + d * e)), h))
    return out


def check_model(m, p, x, keep, tol, what):
    with numpy.errstate(all="ignore"):
        r = A(m.result(x, p.copy()))
        if not numpy.all(numpy.isfinite(r)):
            raise Skip("result not finite")
        num = numdx(lambda z: m.result(z, p), x)
    if not all(numpy.all(numpy.isfinite(n)) for n, e in num):
        raise Skip("numerical derivative not finite")
    x0, p0 = x.copy(), p.copy()
    df = m.derivative(x, p)
    ok(numpy.array_equal(x, x0), what + ": derivative changed the input")
    ok(numpy.allclose(p, p0), what + ": derivative changed the parameters")
    nout = r.shape[1] if r.ndim == 2 else 1
    nin = x.shape[1] if x.ndim == 2 else 1
    if nout > 1 and nin > 1:
        ok(isinstance(df, (list, tuple)) and len(df) == nout, "%s: %s is not a list of %d derivatives" % (what, type(df), nout))
    got = numpy.empty((len(x), nin, nout))
    shp = x.shape if nout == 1 else r.shape if nin == 1 else x.shape
    for o in range(nout):
        d = df[o] if nout > 1 and nin > 1 else df
        ok(numpy.shape(d) == shp, "%s: derivative has shape %s, expected %s" % (what, numpy.shape(d), shp))
        d = A(d)
        got[:, :, o] = d.reshape(len(x), nin) if nout == 1 or nin > 1 else d[:, o:o + 1]
    keep = numpy.ones(len(x), dtype=bool) if keep is None else keep
    nzero = False
    for o in range(nout):
        for k in range(nin):
            n, e = num[k]
            if r.ndim == 2:
                n, e = n[:, o], e[:, o]
            sc = 1.0 + numpy.max(numpy.abs(r)) + numpy.max(numpy.abs(n))
            if keep.any():
                compare(got[keep, k, o], n[keep], sc, tol, "%s: derivative to x[%d] (output %d)" % (what, k, o), e[keep])
                nzero |= bool(numpy.any(n[keep] != 0))
    if keep.all():
        for name, df in (("numDerivative", m.numDerivative(x, p)), ("strictNumericDerivative", m.strictNumericDerivative(x, p))):
            if nout > 1 and nin > 1:
                ok(isinstance(df, (list, tuple)) and len(df) == nout, "%s: %s of %s is not a list of %d derivatives" % (what, name, type(df), nout))
            for o in range(nout):
                d = df[o] if nout > 1 and nin > 1 else df
                ok(numpy.shape(d) == shp, "%s: %s has shape %s, expected %s" % (what, name, numpy.shape(d), shp))
                d = A(d)
                d = d.reshape(len(x), nin) if nout == 1 or nin > 1 else d[:, o:o + 1]
                for k in range(nin):
                    n, e = num[k]
                    if r.ndim == 2:
                        n, e = n[:, o], e[:, o]
                    sc = 1.0 + numpy.max(numpy.abs(r)) + max(numpy.max(numpy.abs(w[0])) for w in num)
                    compare(d[:, k], n, sc, 2e-4, "%s: %s to x[%d] (output %d)" % (what, name, k, o), e)
    return nzero


def smooth(s, cfg, x, p):
    """points away from kinks (also kinks within the steps)"""
    if not s.kink:
        return None
    bad = s.kink(cfg, x, p)
    for d in (-2 * H, 2 * H):
        bad = bad | s.kink(cfg, x + d, p)
    return ~bad


def inside(case, x):
    # splines that refuse or truncate outside their knots: stay a step inside
    return numpy.clip(x, -2.98, 2.98) if "BSplines" in case["m"] or "BasicSplines" in case["m"] else x


TOL = dict(UserNumeric=1e-4, RadialVelocity=1e-4, StellarOrbit=1e-4)


def run(case):
    s = S[case["m"]]
    x, p = inside(case, xarr(case)), A(case["p"])
    m = s.make(case["cfg"])
    keep = smooth(s, case["cfg"], x, p)
    t = check_model(m, p, x, keep, TOL.get(case["m"], 2e-6) * s.tol, case["m"])
    return "plain" if t else None


def fixcase(s):
    def f(c):
        n = len(c["p"])
        return st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=max(1, n - 1)).map(
            lambda fx: dict(c, fix=sorted(fx)))
    return s.case().filter(lambda c: len(c["p"]) > 1).flatmap(f)


def runfixed(case):
    s = S[case["m"]]
    x = inside(case, xarr(case))
    m = build_leaf(case)
    p = A(freepars(case))
    keep = smooth(s, case["cfg"], x, A(case["p"]))
    t = check_model(m, p, x, keep, TOL.get(case["m"], 2e-6) * s.tol, case["m"] + " fixed %s" % case["fix"])
    return "fixed" if t else None


def runexpr(case):
    e, x = case["e"], A(case["x"])
    p = A(pars(e))
    ref(e, x)
    m = build(e, case.get("how", 0))
    t = check_model(m, p, x, None, 4e-6, show(e))
    return ("nested" if nested(e) else "pipe" if hasop(e, "|") else "chain") if t else None


NOSPL = [n for n in LEAF1 if n != "Splines"]


def pipes():
    def _n(c):
        return S["SoftMax"].npars(c)

    def sm(ndim, ndout):
        return st.fixed_dictionaries(dict(ndim=st.just(ndim), ndout=st.just(ndout), offset=st.booleans(),
                                          normed=st.booleans())).flatmap(
            lambda c: fls(-1.5, 1.5, _n(c)).map(lambda p: dict(m="SoftMax", cfg=c, p=p)))

    def mk(t):
        nd, ni, no = t
        first = st.one_of(sm(nd, ni), leaf(LEAF2)) if (nd == 2 and ni == 1) else sm(nd, ni)
        second = sm(ni, no) if not (ni == 1 and no == 1) else st.one_of(sm(1, 1), leaf(PIPE1))
        third = st.one_of(st.none(), sm(no, 1), sm(no, 2), leaf(PIPE1) if no == 1 else sm(no, 1))
        xs = x1(-1.5, 1.5) if nd == 1 else x2(-1.5, 1.5, dim=nd)
        return st.tuples(first, second, third, xs).map(
            lambda q: dict(e=[q[0], ["|", q[1]]] + ([["|", q[2]]] if q[2] else []), x=q[3]))
    return st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).flatmap(mk)


def runpipe(case):
    e, x = case["e"], A(case["x"])
    m = build(e)
    ref(e, x)
    check_model(m, A(pars(e)), x, None, 4e-6, show(e))
    d = "%d-%d-%d" % (e[0]["cfg"].get("ndim", 2), S[e[1][1]["m"]].ndim(e[1][1]["cfg"]), S[e[1][1]["m"]].ndout(e[1][1]["cfg"]))
    return "pipe " + d


def multi():
    """models with more outputs, combined"""
    def sm(t):
        return st.fixed_dictionaries(dict(ndim=st.just(t[0]), ndout=st.just(t[1]), offset=st.booleans(), normed=st.booleans())).flatmap(
            lambda c: fls(-1.5, 1.5, S["SoftMax"].npars(c)).map(lambda p: dict(m="SoftMax", cfg=c, p=p)))

    def mk(t):
        return st.fixed_dictionaries(dict(
            e=st.tuples(sm(t), st.lists(st.tuples(st.sampled_from("+-*/"), sm(t)).map(list), min_size=1, max_size=3), st.booleans()).map(
                lambda q: [q[0]] + (q[1] if len(q[1]) < 2 or not q[2] else q[1][:-2] + [[q[1][-2][0], [q[1][-2][1], q[1][-1]]]])),
            x=x1(-1.5, 1.5) if t[0] == 1 else x2(-1.5, 1.5, dim=t[0]), how=st.integers(0, 2)))
    return st.sampled_from([(1, 2), (1, 3), (2, 2), (2, 3), (3, 2)]).flatmap(mk)


def runmulti(case):
    t = runexpr(case)
    x = A(case["x"])
    return "multi %d" % (1 if x.ndim == 1 else x.shape[1]) if t else None


subs = [Sub(n, s.case(), run, quick=60) for n, s in S.items() if s.deriv and n != "Constant"]
subs += [Sub(n + "-fixed", fixcase(s), runfixed, quick=30) for n, s in S.items() if s.fixable and s.deriv and n not in ("Power",)]
for k in ALLK:
    c = st.fixed_dictionaries(dict(m=st.just("Kernel"), cfg=st.just(dict(k=k)), p=S["Kernel"].pars(dict(k=k)),
                                   x=x1(lo_n=3)))
    subs.append(Sub("Kernel-" + k, c, run, quick=40))
for k in K2D:
    for sh in (1, 2, 3):
        cc = dict(k=k, s=sh)
        c = st.fixed_dictionaries(dict(m=st.just("Kernel2d"), cfg=st.just(cc), p=S["Kernel2d"].pars(cc),
                                       x=x2(lo_n=3)))
        subs.append(Sub("Kernel2d-%s-%d" % (k, sh), c, run, quick=40))

HOW = st.integers(0, 2)
subs.append(Sub("expr1-a", st.fixed_dictionaries(dict(e=expr1(leaves=NOSPL), x=x1(-2, 2), how=HOW)), runexpr, quick=250))
subs.append(Sub("expr1-b", st.fixed_dictionaries(dict(e=expr1(maxlen=3, depth=2, leaves=NOSPL), x=x1(-2, 2, lo_n=2), how=HOW)), runexpr, quick=250))
subs.append(Sub("expr1-nopipe", st.fixed_dictionaries(dict(e=expr1(ops="+-*/", leaves=NOSPL), x=x1(-2, 2, lo_n=2), how=HOW)), runexpr, quick=250))
subs.append(Sub("expr2", st.fixed_dictionaries(dict(e=expr2(), x=x2(-1.5, 1.5), how=HOW)), runexpr, quick=200))
subs.append(Sub("pipes", pipes(), runpipe, quick=300))
subs.append(Sub("multi", multi(), runmulti, quick=250))

if __name__ == "__main__":
    sys.exit(main("C03", subs, RULE))
