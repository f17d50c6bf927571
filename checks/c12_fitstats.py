import sys
from env import *
from fits import *
from c11_linear import mk, label

RULE = ("Problems of C11 (random linear compound model, data, weights, accuracy, kept parameters, constraints), fixed or estimated noise scale, limits given "
        "as argument or as prior, full or shortened, and sequences of fits. Non-trivial: weights, accuracy, keep, constraints, noise limits or fixed scale.")
TIGHT = dict(LevenbergMarquardtFitter=dict(tolerance=1e-11), CurveFitter=dict(ftol=1e-13, xtol=1e-13, gtol=1e-13))
L2PI = math.log(2 * math.pi)


@st.composite
def stat(draw, fits=1, norms=False, keeps=True):
    c = draw(problem(fits, minex=2, norms=norms, keeps=keeps))
    npar = build(c["parts"]).npchain
    c["cls"] = draw(st.sampled_from(LINFIT + ["CurveFitter", "LevenbergMarquardtFitter"]))
    c["fs"] = draw(st.one_of(st.none(), fl(0.1, 4)))
    nl = draw(st.sampled_from([npar, npar, 1, max(1, npar - 1), -1]))
    lo = [draw(fl(-60, -20)) for _ in range(abs(nl))]
    c["lo"], c["hi"] = lo, [v + draw(fl(30, 100)) for v in lo]
    c["scalar"] = nl < 0
    c["lk"] = draw(st.sampled_from(["arg", "prior", "both"]))
    c["noise"] = draw(st.one_of(st.none(), st.tuples(fl(0.01, 0.1), fl(1, 50)).map(list)))
    c["pin"] = draw(st.booleans())
    return c


def setup(c):
    m = build(c["parts"], c["br"])
    if m.npchain == 0:
        raise Skip("no parameters")
    m.parameters = A(c["p0"])
    kw = {} if c["keep"] is None else dict(keep=kd(c["keep"]))
    if c["fs"] is not None and c["cls"] != "QRFitter": kw["fixedScale"] = c["fs"]
    f = getattr(bf, c["cls"])(A(c["x"]), m, **kw)
    if c["fs"] is not None: f.fixedScale = c["fs"]
    for g, v, w in c["norm"]:
        f.normalize(A(g), v, weight=w)
    return m, f


def expect(c, ref):
    """reference values from the independent solution"""
    s2 = ref.chisq / ref.dof
    noise = c["noise"]
    var = s2 if noise is not None else 1.0 if c["fs"] is None else c["fs"] ** 2
    logL = -0.5 * (ref.sumw * (L2PI + math.log(var)) + ref.chisq / var) - numpy.sum(ref.w * numpy.log(ref.a))
    n = len(c["lo"])
    occ = 0.0
    for k in ref.fi:
        occ -= math.log(c["hi"][min(k, n - 1)] - c["lo"][min(k, n - 1)])
    if ref.fi:
        occ += 0.5 * ref.npfit * (L2PI + math.log(var)) - 0.5 * numpy.linalg.slogdet(ref.H)[1]
    if noise is not None:
        occ += 0.5 * math.log(math.pi / ref.dof) - math.log(math.log(noise[1] / noise[0]))
    return s2, logL, occ


def fitone(c, i, m, ftr):
    f = c["fits"][i]
    keep = kd(f["keep"]) if f["keep"] is not None else kd(c["keep"])
    ref = Ref(c, f, keep)
    if ref.dof <= 0.5:
        raise Skip("no degrees of freedom left")
    y, w, a = arrays(f)
    kw = {}
    if f["keep"] is not None: kw["keep"] = kd(f["keep"])
    if a is not None: kw["accuracy"] = a
    p = ftr.fit(y, weights=w, **TIGHT.get(c["cls"], {}), **kw)
    return ref, p


def defs(c):
    m, ftr = setup(c)
    its = c["cls"] not in LINFIT
    for i in range(len(c["fits"])):
        if c["lk"] in ("prior", "both"):
            big = c["lk"] == "both"
            n = m.npchain
            lo = [c["lo"][min(k, len(c["lo"]) - 1)] for k in range(n)]
            hi = [c["hi"][min(k, len(c["lo"]) - 1)] for k in range(n)]
            if big:
                lo, hi = [v - 7 for v in lo], [v + 9 for v in hi]
            if not its: m.setLimits(lo, hi)
        ref, p = fitone(c, i, m, ftr)
        t = "fit %d, %s: " % (i, c["cls"])
        tol = 1e-7 * max(1.0, ref.cond if ref.fi else 1.0)
        if its: tol = max(tol, 1e-3)
        s2, logL, occ = expect(c, ref)
        close(ftr.chisq, ref.chisq, t + "chisq", tol)
        ok(ftr.npfit == ref.npfit, t + "npfit = %s, %d parameters are fitted" % (ftr.npfit, ref.npfit))
        close(ftr.sumwgt, ref.sumw, t + "sum of weights", 1e-9)
        close(ftr.scale, math.sqrt(s2), t + "scale", tol)
        if ref.dof > 0.5: close(ftr.stdevScale, math.sqrt(s2) / math.sqrt(2 * ref.sumw), t + "stdevScale", tol)
        if ref.fi and not c["pin"]:
            C = numpy.linalg.inv(ref.H) * s2
            cs = 1 / numpy.sqrt(numpy.outer(numpy.diag(C), numpy.diag(C)))
            H = numpy.sqrt(numpy.outer(numpy.diag(ref.H), numpy.diag(ref.H)))
            fi = None if ref.npfit == ref.np else numpy.array(ref.fi)
            close(ftr.getHessian(index=fi) / H, ref.H / H, t + "hessian", tol)
            close(ftr.getCovarianceMatrix() * cs, C * cs, t + "covariance", tol * 10)
            close(ftr.covariance * cs, C * cs, t + "covariance", tol * 10)
            sd = numpy.zeros(ref.np)
            sd[ref.fi] = numpy.sqrt(numpy.diag(C))
            close(ftr.stdevs, sd, t + "stdevs", tol * 10, scale=numpy.where(sd > 0, sd, 1e-300))
            close(ftr.standardDeviations, sd, t + "standardDeviations", tol * 10)
            close(m.stdevs, sd, t + "model.stdevs", tol * 10)
        if (its and c["lk"] == "prior") or c["norm"]:
            continue
        lims = {} if c["lk"] == "prior" else dict(limits=[c["lo"][0], c["hi"][0]] if c["scalar"] else [c["lo"], c["hi"]])
        if c["noise"] is not None: lims["noiseLimits"] = c["noise"]
        z = ftr.getLogZ(**lims)
        et = tol * 10 + (0.05 if its else 0)
        close(ftr.logLikelihood, logL, t + "logLikelihood", et)
        close(ftr.logOccam, occ, t + "logOccam", et)
        close(z, logL + occ, t + "logZ", et)
        close(ftr.getEvidence(**lims), (logL + occ) / math.log(10), t + "evidence", et)
        if not lims:
            close(ftr.logZ, logL + occ, t + "logZ", et)
            close(ftr.evidence, (logL + occ) / math.log(10), t + "evidence", et)
    l = label(c)
    return "/".join(([l] if l else []) + (["noise"] if c["noise"] else []) + (["fs"] if c["fs"] else [])) or None


def band(c):
    """model error band: sqrt( diag( D C D^T ) ), exact for linear models"""
    m, ftr = setup(c)
    ref, p = fitone(c, 0, m, ftr)
    if not ref.fi:
        raise Skip("nothing fitted")
    C = numpy.linalg.inv(ref.H) * ref.chisq / ref.dof
    # new inputs within the range of the data
    xx = ref.x[: max(1, len(ref.x) // 2)] * 0.93 + 0.11
    m2 = build(c["parts"])
    off = m2.result(xx, numpy.zeros(ref.np))
    D = numpy.array([m2.result(xx, numpy.identity(ref.np)[k]) - off for k in range(ref.np)]).T.reshape(len(xx), ref.np)[:, ref.fi]
    exp = numpy.sqrt(numpy.einsum("ij,jk,ik->i", D, C, D))
    if numpy.min(exp) < 1e-4 * (1 + numpy.max(numpy.abs(m.result(xx)))):
        raise Skip("negligible error")
    fi = None if ref.npfit == ref.np else numpy.array(ref.fi)
    mc = bf.MonteCarlo(xx, m, ftr.covariance, index=fi, mcycles=1500)
    e = mc.getError()
    ok(numpy.all(numpy.abs(e / exp - 1) < 0.12), "error band %s, expected %s" % (e.tolist(), exp.tolist()))
    e = ftr.monteCarloError(xx, monteCarlo=mc)
    ok(numpy.all(numpy.abs(e / exp - 1) < 0.12), "error band %s, expected %s" % (e.tolist(), exp.tolist()))
    p1 = m.parameters.copy()
    e = ftr.monteCarloError(xx)             # 25 cycles
    ok(e.shape == exp.shape and numpy.all(e > 0.2 * exp) and numpy.all(e < 1.9 * exp), "error band %s, expected %s" % (e.tolist(), exp.tolist()))
    ok(numpy.array_equal(e, ftr.monteCarloError(xx)), "error band does not reproduce")
    ok(ftr.monteCarloError().shape == (len(ref.x),), "error band at the data")
    ok(numpy.array_equal(p1, m.parameters), "parameters changed by the error band")
    return "band" + ("/keep" if ref.keep else "")


def scaling(c):
    """data in other units"""
    c = dict(c, noise=c["noise"] or [0.01, 20.0])
    m, ftr = setup(c)
    if numpy.any(build(c["parts"]).result(A(c["x"]), numpy.zeros(m.npchain)) != 0):
        raise Skip("model has a constant part")
    ref, p = fitone(c, 0, m, ftr)
    lim = dict(limits=[c["lo"], c["hi"]])
    nl = c["noise"]
    z0 = ftr.getLogZ(noiseLimits=nl, **lim)
    u = c["unit"]
    c2 = dict(c, fits=[dict(c["fits"][0], y=[u * v for v in c["fits"][0]["y"]], yk="float")])
    ck = lambda k: None if k is None else {a: b * u for a, b in k.items()}
    c2["keep"], c2["fits"][0]["keep"] = ck(c["keep"]), ck(c["fits"][0]["keep"])
    m2, f2 = setup(c2)
    y, w, a = arrays(c2["fits"][0])
    kw = {}
    if c2["fits"][0]["keep"] is not None: kw["keep"] = kd(c2["fits"][0]["keep"])
    if a is not None: kw["accuracy"] = a
    p2 = f2.fit(y, weights=w, **TIGHT.get(c["cls"], {}), **kw)
    tol = 1e-7 * max(1.0, ref.cond) if c["cls"] in LINFIT else 3e-3
    close(A(p2) / u, p, "parameters in other units", tol)
    close(f2.chisq / u / u, ftr.chisq, "chisq in other units", tol)
    close(f2.scale / u, ftr.scale, "scale in other units", tol)
    close(f2.stdevs / u, ftr.stdevs, "stdevs in other units", tol)
    z2 = f2.getLogZ(limits=[(A(c["lo"]) * u).tolist(), (A(c["hi"]) * u).tolist()], noiseLimits=[nl[0] * u, nl[1] * u])
    close(z2, z0 - ref.sumw * math.log(u), "evidence in other units", tol * 10)
    return "units"


def exact(c):
    """the evidence with a fixed scale of a linear model is the integral of the likelihood over the prior box"""
    m, ftr = setup(c)
    ref, p = fitone(c, 0, m, ftr)
    if ref.npfit not in (1, 2):
        raise Skip("more than 2 parameters")
    var = 1.0 if c["fs"] is None else c["fs"] ** 2
    sd = numpy.sqrt(numpy.diag(numpy.linalg.inv(ref.H)) * var)
    pf = A(p)[ref.fi]
    lo, hi = pf - 9 * sd, pf + 9 * sd
    L = numpy.zeros(ref.np) - 1
    H = numpy.zeros(ref.np) + 1.0
    L[ref.fi], H[ref.fi] = lo, hi
    z = ftr.getLogZ(limits=[L.tolist(), H.tolist()])
    n = 161
    gr = [numpy.linspace(a, b, n) for a, b in zip(lo, hi)]
    gg = numpy.meshgrid(*gr)
    q = A(p).copy()
    tot = numpy.zeros(gg[0].size)
    m2 = build(c["parts"])
    for j, v in enumerate(zip(*[g.ravel() for g in gg])):
        q[ref.fi] = v
        r = ref.y - ref.off - ref.D @ q
        tot[j] = -0.5 * numpy.sum(ref.fw * r * r) / var
    base = -0.5 * ref.sumw * (L2PI + math.log(var)) - numpy.sum(ref.w * numpy.log(ref.a))
    mx = tot.max()
    ex = base + mx + math.log(numpy.mean(numpy.exp(tot - mx)) * (n / (n - 1.0)) ** ref.npfit)
    close(z, ex, "evidence and the integral of the likelihood over the prior", 2e-2, scale=1.0)
    return "exact%d" % ref.npfit


def limfit(c):
    """limitsFit: never outside the limits; where nothing is outside it is the plain fit"""
    m, ftr = setup(c)
    f = c["fits"][0]
    ref, p = fitone(c, 0, m, ftr)
    p = A(p).copy()
    n = ref.np
    cw = c["cut"]
    lo = numpy.full(n, -1e6)
    hi = numpy.full(n, 1e6)
    k0 = ref.fi[c["which"] % len(ref.fi)] if ref.fi else None
    if k0 is None:
        raise Skip("nothing fitted")
    if cw == "low": lo[k0] = p[k0] + 0.5
    if cw == "high": hi[k0] = p[k0] - 0.5
    m2, f2 = setup(c)
    m2.setLimits(lo.tolist(), hi.tolist())
    y, w, a = arrays(f)
    kw = {}
    if f["keep"] is not None: kw["keep"] = kd(f["keep"])
    q = f2.limitsFit(y, weights=w, **kw)
    r0 = dict(f, a=None)
    keep = dict(ref.keep)
    rp = Ref(c, r0, keep)
    bad = {}
    for k in rp.fi:
        if rp.p[k] < lo[k]: bad[k] = lo[k]
        if rp.p[k] > hi[k]: bad[k] = hi[k]
    rq = Ref(c, r0, {**keep, **bad}) if bad else rp
    if bad and (numpy.any(rq.p < lo - 1e-9) or numpy.any(rq.p > hi + 1e-9)) :
        raise Skip("more limits transgressed")
    tol = 1e-7 * max(rp.cond, 1) if c["cls"] in LINFIT else 1e-3
    close(m2.parameters, rq.p, "limitsFit: parameters in the model", tol)
    close(q, rq.p, "limitsFit: returned parameters", tol)
    return "limits " + ("in" if not bad else cw)


@st.composite
def wunit(draw):
    c = draw(stat(1))
    c["unit"] = draw(st.sampled_from([0.1, 0.5, 2.0, 10.0]))
    return c


@st.composite
def wlim(draw):
    c = draw(stat(1))
    c["cls"] = draw(st.sampled_from(LINFIT))
    c["fits"][0]["a"], c["fits"][0]["ak"] = None, "none"
    c["cut"] = draw(st.sampled_from(["in", "low", "high"]))
    c["which"] = draw(st.integers(0, 5))
    return c


if __name__ == "__main__":
    sys.exit(main("C12", [
        Sub("defs", stat(1, norms=True), defs, 500, 16000),
        Sub("defs_again", stat(4, norms=True), defs, 250, 9000),
        Sub("band", stat(1), band, 80, 2500),
        Sub("scaling", wunit(), scaling, 150, 6000),
        Sub("exact", stat(1, keeps=False).map(lambda c: dict(c, cls=LINFIT[len(c["x"]) % 2], parts=c["parts"][:1], p0=c["p0"][:build(c["parts"][:1]).npchain])), exact, 60, 2000),
        Sub("limitsfit", wlim(), limfit, 150, 6000),
    ], RULE))
