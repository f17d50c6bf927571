"""C20: evidence and posterior of nested sampling against exact ones; the engines leave the constrained prior invariant"""
from env import *
from pbt import *
from catalog import fl
from numpy.random import RandomState
from scipy import stats, special
from lik import single
import c18_engines as en
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection

RULE = ("Problems of one to three fitted parameters (linear and non-linear models, several priors with and without limits, fitted scale, "
        "weights, kept parameters, several error distributions). stationary: walkers drawn independently from the prior under a likelihood "
        "constraint are moved once by an engine; likelihoods and parameters must have the same distribution as a fresh sample "
        "(two-sample Kolmogorov-Smirnov). evidence: groups of complete nested sampling runs; the deviations of log evidence, posterior "
        "means and widths from quadrature, in units of their errors, must be small each and must vanish on average. Non-trivial: all.")

A = numpy.asarray
ENGS = ["galilean", "chord", "gibbs", "random"]


def quantile(d, u):
    """own inverse of the cumulative prior"""
    t, a, b, lim = d
    if t in ("uni", "circ"): return a + b * u
    if t == "jeff": return b * 5.0 ** u
    if t == "exp": return -b * numpy.log1p(-u)
    if t == "gauss": cdf, inv = stats.norm.cdf, stats.norm.ppf
    if t == "laplace": cdf, inv = stats.laplace.cdf, stats.laplace.ppf
    if t == "cauchy": cdf, inv = stats.cauchy.cdf, stats.cauchy.ppf
    if lim:
        u = cdf(-1.0) + u * (cdf(2.0) - cdf(-1.0))
    return a + b * inv(u)


MODELS = {   # maker, function of (x, list of p), which priors must be positive
    "const": (lambda: bf.PolynomialModel(0), lambda x, p: p[0] + 0 * x, 1, []),
    "line": (lambda: bf.PolynomialModel(1), lambda x, p: p[0] + p[1] * x, 2, []),
    "parab": (lambda: bf.PolynomialModel(2), lambda x, p: p[0] + p[1] * x + p[2] * x * x, 3, []),
    "exp": (lambda: bf.ExpModel(), lambda x, p: p[0] * numpy.exp(p[1] * x), 2, []),
    "power": (lambda: bf.PowerModel(2), lambda x, p: p[0] * x * x, 1, []),
    "gauss": (lambda: bf.GaussModel(), lambda x, p: p[0] * numpy.exp(-0.5 * ((x - p[1]) / p[2]) ** 2), 3, [2]),
}


@st.composite
def problem(draw, maxdim=3, zeros=True):
    c = {}
    c["dist"] = draw(st.sampled_from(["gauss", "gauss", "gauss", "laplace", "cauchy"] + ["uniform"] * zeros + ["expo", "poisson"]))
    c["kind"] = draw(st.sampled_from(["const", "line", "line", "parab", "exp", "gauss", "power"]))
    if c["dist"] == "poisson":
        c["kind"] = "exp"
    m = MODELS[c["kind"]]
    pr = []
    for i in range(m[2]):
        t = draw(st.sampled_from(["uni", "uni", "gauss", "laplace", "cauchy", "circ", "jeff", "exp"]))
        if i in m[3] and t not in ("jeff", "exp"):
            t = "jeff"
        if c["dist"] == "poisson" and i == 0:
            t = draw(st.sampled_from(["jeff", "exp"]))
        pr.append([t, draw(fl(-1, 1)), draw(fl(0.5, 3)), draw(st.booleans())])
    c["priors"] = pr
    n = m[2]
    c["keep"] = {}
    c["hfree"] = c["dist"] in ("gauss", "laplace", "cauchy", "uniform") and draw(st.booleans())
    nk = draw(st.integers(0, n - 1)) if draw(st.integers(0, 2)) == 0 else 0
    nk = max(nk, n + c["hfree"] - maxdim)
    for i in range(nk):
        c["keep"][str(i)] = draw(fl(0.2, 0.8))
    c["h"] = [draw(fl(0.3, 1.5))] + ([draw(fl(1, 3))] if c["dist"] == "expo" else [])
    c["hlim"] = [draw(fl(0.1, 0.5)), draw(fl(1.0, 4.0))]
    c["nd"] = draw(st.integers(3, 8))
    c["noise"] = draw(fl(0.2, 1))
    c["w"] = draw(st.lists(fl(0.3, 2), min_size=c["nd"], max_size=c["nd"])) if c["dist"] in ("gauss", "laplace", "expo") and draw(st.integers(0, 3)) == 0 else None
    c["seed"] = draw(st.integers(0, 10 ** 6))
    return c


class Prob:
    def __init__(self, c):
        self.c = c
        mk, self.f, n, _ = MODELS[c["kind"]]
        rng = RandomState(c["seed"])
        self.m = mk()
        for i, d in enumerate(c["priors"]):
            self.m.setPrior(i, en.mkprior(d)[0])
        self.x = numpy.sort(rng.rand(c["nd"]) * 2 - 1)
        u0 = 0.2 + 0.6 * rng.rand(n)
        p0 = [float(quantile(d, u)) for d, u in zip(c["priors"], u0)]
        self.kept = {int(k): float(quantile(c["priors"][int(k)], v)) for k, v in c["keep"].items()}
        for k, v in self.kept.items():
            p0[k] = v
        y = self.f(self.x, p0)
        self.y = rng.poisson(numpy.clip(y, 0.1, 40)).astype(float) if c["dist"] == "poisson" else y + c["noise"] * rng.randn(len(y))
        self.w = None if c["w"] is None else A(c["w"])
        h, d = c["h"], c["dist"]
        self.nh = {"poisson": 0, "expo": 2}.get(d, 1)
        lim = list(c["hlim"]) if c["hfree"] else None
        self.ed = (bf.GaussErrorDistribution(scale=h[0], limits=lim) if d == "gauss" else bf.LaplaceErrorDistribution(scale=h[0], limits=lim) if d == "laplace" else
                   bf.CauchyErrorDistribution(scale=h[0], limits=lim) if d == "cauchy" else bf.UniformErrorDistribution(scale=h[0], limits=lim) if d == "uniform" else
                   bf.ExponentialErrorDistribution(scale=h[0], power=h[1]) if d == "expo" else bf.PoissonErrorDistribution())
        self.n = n
        self.free = [k for k in range(n) if k not in self.kept] + ([-1] if c["hfree"] else [])
        self.kw = {} if self.w is None else dict(weights=self.w)

    def values(self, u):
        """parameters, one row for each row of unit values of the fitted ones"""
        c = self.c
        v = numpy.zeros((len(u), self.n + self.nh))
        if self.nh:
            v[:, self.n:] = c["h"]
        for k, q in self.kept.items():
            v[:, k] = q
        for i, k in enumerate(self.free):
            v[:, k] = quantile(c["priors"][k], u[:, i]) if k >= 0 else c["hlim"][0] * (c["hlim"][1] / c["hlim"][0]) ** u[:, i]
        return v

    def logl(self, v):
        with numpy.errstate(all="ignore"):
            f = self.f(self.x[None, :], [v[:, k:k + 1] for k in range(self.n)])
            f = numpy.broadcast_to(f, (len(v), len(self.x)))
            if self.c["dist"] == "poisson":
                l = self.y * numpy.log(f) - f - special.gammaln(self.y + 1)
            else:
                h = [v[:, self.n + i:self.n + i + 1] for i in range(self.nh)]
                r = self.y - f
                d = self.c["dist"]
                s = h[0]
                if d == "gauss": l = -0.5 * numpy.log(2 * numpy.pi * s * s) - 0.5 * (r / s) ** 2
                elif d == "laplace": l = -numpy.log(2 * s) - numpy.abs(r) / s
                elif d == "cauchy": l = numpy.log(s / numpy.pi) - numpy.log(s * s + r * r)
                elif d == "uniform": l = numpy.where(numpy.abs(r) <= s, -numpy.log(2 * s), -numpy.inf)
                else: l = -numpy.log(2 * s) + numpy.log(h[1]) - special.gammaln(1 / h[1]) - numpy.abs(r / s) ** h[1]
            if self.w is not None:
                l = l * self.w
            return numpy.sum(l, axis=1)

    def check(self, rng):
        """the likelihood of the code is that of the reference"""
        if self.c["dist"] == "expo":
            ref = lambda v: float(numpy.sum(single("expo", list(v[self.n:]), self.y - self.f(self.x, v[:self.n]), None) * (1 if self.w is None else self.w)))
            self.off = None
        u = rng.rand(3, len(self.free)) * 0.8 + 0.1
        v = self.values(u)
        pb = self.problem()
        for q, l in zip(v, self.logl(v)):
            g = self.ed.logLikelihood(pb, q)
            ok(abs(g - l) < 1e-8 * (1 + abs(l)) or (g < -1e100 and l < -1e100) or not math.isfinite(l), "log likelihood is %s, expected %s" % (g, l))

    def problem(self):
        return bf.ClassicProblem(self.m, xdata=self.x, ydata=self.y, **self.kw)


def region(p, rng, frac, n):
    """n independent draws from the prior above the constraint at fraction frac of the prior mass"""
    d = len(p.free)
    l0 = p.logl(p.values(rng.rand(20000, d)))
    l0 = numpy.where(numpy.isnan(l0), -numpy.inf, l0)
    low = numpy.sort(l0)[-int(20000 * frac)]
    if not math.isfinite(low) or numpy.sum(l0 == low) > 1:
        raise Skip("plateau")
    V, L, k = [], [], 0
    while k < n:
        v = p.values(rng.rand(20000, d))
        l = p.logl(v)
        g = l >= low
        V.append(v[g])
        L.append(l[g])
        k += g.sum()
    return low, numpy.concatenate(V)[:n], numpy.concatenate(L)[:n]


def moved(c, nens, N):
    p = Prob(c["p"])
    rng = RandomState(c["seed"])
    p.check(rng)
    M = nens * N
    low, V, L = region(p, rng, c["frac"], 5 * M)
    pb = p.problem()
    E = en.ENG[c["engine"]]
    out, lout, mv = [], [], 0
    for g in range(nens):
        wl = WalkerList(problem=pb, ensemble=N, allpars=V[0], fitIndex=A(p.free))
        ph = PhantomCollection()
        for i, w in enumerate(wl):
            w.allpars = V[g * N + i].copy()
            w.logL = p.ed.logLikelihood(pb, w.allpars)
        for w in wl:
            ph.storeItems(w.copy())
        ph.lowLhood = -1e300
        e = E(wl, p.ed, phantoms=ph, seed=c["seed"] + 100 + g)
        for i in range(N):
            mv += e.execute(i, low) > 0
        out += [A(w.allpars, dtype=float) for w in wl]
        lout += [w.logL for w in wl]
    out, lout = A(out), A(lout)
    res = [("logL", stats.ks_2samp(L[M:], lout))]
    for k in p.free:
        res.append(("parameter %d" % k, stats.ks_2samp(V[M:, k], out[:, k])))
    return res, mv / M, p


@st.composite
def scase(draw):
    return dict(p=draw(problem()), engine=draw(st.sampled_from(ENGS)), frac=draw(st.sampled_from([0.6, 0.3, 0.1, 0.03, 0.01])),
                seed=draw(st.integers(0, 10 ** 6)))


def stationary(c):
    good = c["engine"] in ("chord", "gibbs")
    res, mv, p = moved(c, 16 if good else 8, 40)
    ok(mv > 0.4, "%s moves only %.2f of the walkers" % (c["engine"], mv))
    for what, k in res:
        # galilean and random are only approximately invariant by design
        ok(k.pvalue > 1e-7 if good else k.statistic < 0.35,
           "%s: distribution of %s differs from that of the constrained prior: D = %.3f, p = %.1e" % (c["engine"], what, k.statistic, k.pvalue))
    return dict(nontrivial=True, features=[c["engine"], c["p"]["dist"], c["p"]["kind"], "dim%d" % len(p.free)])


def exact(p):
    """log evidence, posterior means and deviations by quadrature over the unit cube of the prior"""
    d = len(p.free)
    def grid(n):
        g = (numpy.arange(n) + 0.5) / n
        u = numpy.stack([q.ravel() for q in numpy.meshgrid(*[g] * d, indexing="ij")], axis=1)
        v = p.values(u)
        l = p.logl(v)
        l = numpy.where(numpy.isnan(l), -numpy.inf, l)
        mx = numpy.max(l)
        w = numpy.exp(l - mx)
        z = numpy.sum(w)
        w /= z
        mu = w @ v
        al = float(numpy.sum(numpy.where(w > 0, w * numpy.where(w > 0, l, 0), 0)))
        return mx + math.log(z) - d * math.log(n), mu, numpy.sqrt(numpy.maximum(w @ (v - mu) ** 2, 0)), al
    n = {1: 20000, 2: 400, 3: 70}[d]
    z, mu, sd, al = grid(n)
    z2 = grid(int(n * 0.7))[0]
    if not (math.isfinite(z) and abs(z - z2) < 0.02):
        raise Skip("quadrature not accurate")
    return z, mu, sd, al - z


def nested(c):
    """deviation of the evidence in sigma; deviations of the means and relative widths of the posterior"""
    p = Prob(c["p"])
    if c["p"]["dist"] == "uniform":
        raise Skip("NestedSampler explores only where the likelihood is finite")
    p.check(RandomState(c["seed"]))
    z, mu, sd, info = exact(p)
    if info > 12:
        raise Skip("needs too many iterations")
    N = c["N"]
    kw = dict(distribution=p.ed, ensemble=N, seed=c["seed"], verbose=0, engines=c["engines"], keep=p.kept or None)
    if c.get("phantom"):
        ns = bf.PhantomSampler(p.x, p.m, p.y, weights=p.w, **kw)
    else:
        ns = bf.NestedSampler(p.x, p.m, p.y, weights=p.w, discard=c["discard"], **kw)
    try:
        ns.sample()
    except RuntimeError as e:
        if "valid starting" in str(e):
            raise Skip("no valid starting point")
        raise
    err = math.sqrt((max(info, 0.2) + 0.2) / N)
    dz = (ns.logZ - z) / err
    par = A(list(ns.parameters) + (list(ns.hypars) if p.nh else []))
    std = A(list(ns.stdevs) + (list(ns.stdevHypars) if p.nh else []))
    # number of independent samples in the posterior
    w = numpy.exp(A([s.logW for s in ns.samples]))
    dp, ds = [], []
    for k in p.free:
        if k >= 0 and c["p"]["priors"][k][0] in ("circ", "cauchy"):
            continue
        dp.append((par[k] - mu[k]) / (sd[k] / math.sqrt(N)))
        ds.append(std[k] / sd[k])
    return dict(dz=dz, dp=dp, ds=ds, info=info, ni=ns.info, ess=1 / numpy.sum(w * w), p=p)


@st.composite
def rcase(draw):
    return dict(p=draw(problem(zeros=False)), N=draw(st.sampled_from([20, 30])), discard=draw(st.sampled_from([1, 1, 2])), seed=draw(st.integers(0, 10 ** 6)),
                engines=draw(st.sampled_from([None, ["chord"], ["chord", "gibbs"], ["galilean", "gibbs"]])))


def one(c):
    r = nested(c)
    ok(abs(r["dz"]) < 6, "log evidence deviates %.1f sigma" % r["dz"])
    for v in r["dp"]:
        ok(abs(v) < 6, "a posterior mean deviates %.1f" % v)
    for v in r["ds"]:
        ok(0.3 < v < 2.5, "a posterior width is %.2f of the exact one" % v)
    return dict(nontrivial=True, features=[c["p"]["dist"], c["p"]["kind"], "dim%d" % len(r["p"].free)] + (["keep"] if c["p"]["keep"] else []))


BASE = dict(dist="gauss", kind="line", priors=[["uni", -2, 4, True], ["uni", -2, 4, True]], keep={}, hfree=False, h=[0.5], hlim=[0.15, 3.0], nd=6,
            noise=0.5, w=None)
GROUPS = {
    "default": dict(N=25),
    "phantom": dict(N=30, phantom=True),
    "scale": dict(N=25, engines=["chord"], p=dict(hfree=True, w=[0.5, 1.5, 1.0, 2.0, 0.3, 0.7])),
    "galilean": dict(N=25, engines=["galilean"], p=dict(priors=[["gauss", 0, 2, False], ["laplace", 0, 1.5, True]])),
    "gibbs": dict(N=25, engines=["gibbs"], p=dict(dist="laplace", kind="exp", priors=[["jeff", 0, 0.5, True], ["uni", -2, 4, True]])),
    "discard": dict(N=40, discard=4, engines=["chord", "gibbs"], p=dict(dist="cauchy", hfree=True, kind="const", priors=[["gauss", 0, 3, False]])),
    "poisson": dict(N=25, engines=["chord"], p=dict(dist="poisson", kind="exp", priors=[["exp", 0, 4, False], ["gauss", 0, 1, False]])),
    "keep": dict(N=25, engines=["chord"], p=dict(kind="gauss", priors=[["exp", 0, 1, False], ["circ", -1, 2, True], ["jeff", 0, 0.3, True]], keep={"1": 0.5})),
}


def group(c):
    g = GROUPS[c["group"]]
    dz, dp, ds, di = [], [], [], []
    for i in range(c["n"]):
        pr = dict(BASE, **g.get("p", {}))
        pr["seed"] = c["seed"] * 1000 + i
        try:
            r = nested(dict(p=pr, N=g["N"], discard=g.get("discard", 1), engines=g.get("engines"), phantom=g.get("phantom"), seed=c["seed"] * 100 + i))
        except Skip:
            continue
        dz.append(r["dz"])
        dp.append(r["dp"])
        ds.append(r["ds"])
        di.append(r["ni"] / r["info"])
    n = len(dz)
    ok(n > c["n"] // 2, "not enough problems")
    dz, dp, ds = A(dz), A(dp), A(ds)
    if os.environ.get("CALIB"):
        print(c, "n", n, "z %.2f +- %.2f" % (dz.mean(), dz.std()), "dp", dp.mean(0).round(2), dp.std(0).round(2), "ds", ds.mean(0).round(2), "info %.2f" % numpy.mean(di), file=open(os.environ["CALIB"], "a"))
    f = 3.0 if g.get("phantom") else 1.0
    ok(abs(numpy.mean(dz)) * math.sqrt(n) < 5.5 * f, "%s: mean deviation of log evidence is %.2f sigma in %d runs" % (c["group"], numpy.mean(dz), n))
    ok(numpy.all(numpy.abs(numpy.mean(dp, axis=0)) * math.sqrt(n) < 5.5 * f), "%s: mean deviations of the parameters are %s in %d runs" % (c["group"], numpy.mean(dp, axis=0), n))
    ok(numpy.all(numpy.abs(numpy.mean(ds, axis=0) - 1) < 0.3), "%s: mean relative widths are %s in %d runs" % (c["group"], numpy.mean(ds, axis=0), n))
    ok(abs(numpy.mean(di) - 1) < 0.35, "%s: mean relative information is %.2f in %d runs" % (c["group"], numpy.mean(di), n))
    return dict(nontrivial=True, features=[c["group"]])


def seng(e):
    return scase().map(lambda c: dict(c, engine=e))


if __name__ == "__main__":
    s0 = int(os.environ.get("VERIF_SEED", "1"))
    big = "thorough" in sys.argv
    cases = lambda k: [dict(group=k, n=20, seed=s0 * 50 + i) for i in range(12 if big else 1)]
    sys.exit(main("C20", [Sub("stationary-" + e, seng(e), stationary, 14, 500) for e in ENGS] +
                  [Sub("runs", rcase(), one, 14, 800)] + [Enum("pooled-" + k, cases(k), group) for k in GROUPS], RULE))
