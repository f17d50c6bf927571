"""C18: exploration engines keep walkers valid"""
from env import *
from pbt import *
from catalog import fl
from numpy.random import RandomState
from lik import single, hyp, SCALED
import c22_dynamic as dy
import c27_errorsxy as xy
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection
from BayesicFitting.source.Explorer import Explorer
from BayesicFitting.source.StartEngine import StartEngine

RULE = ("A problem (static, dynamic or modifiable model at some position of a compound, an error distribution with fixed or fitted "
        "hyperparameters, kept parameters, priors of several kinds) with an ensemble of walkers is started with StartEngine and then "
        "driven as in nested sampling: raise the constraint, replace the walkers below it by copies of others, run a random sequence "
        "of engines on them. After each call all walkers are compared with an own record, limits, fit index and likelihood with own "
        "calculations. The whole history is run twice and must be the same. Non-trivial: at least one accepted move at a constraint "
        "above the lowest walker.")

A = numpy.asarray
ENG = dict(galilean=bf.GalileanEngine, chord=bf.ChordEngine, gibbs=bf.GibbsEngine, step=bf.StepEngine, random=bf.RandomEngine,
           birth=bf.BirthEngine, death=bf.DeathEngine, struct=bf.StructureEngine)
MOVE = ["galilean", "chord", "gibbs", "step", "random"]

# static models: maker, value, priors for every parameter: (kind, a, b)
STATIC = {
    "poly": (lambda: bf.PolynomialModel(1), lambda x, p: p[0] + p[1] * x, 2),
    "gauss": (lambda: bf.GaussModel(), dy.STAT["gauss"][2], 3),
    "sine": (lambda: bf.SineModel(), lambda x, p: p[1] * numpy.cos(2 * math.pi * p[0] * x) + p[2] * numpy.sin(2 * math.pi * p[0] * x), 3),
    "exp": (lambda: bf.ExpModel(), lambda x, p: p[0] * numpy.exp(p[1] * x), 2),
    "gp": (lambda: bf.GaussModel() + bf.PolynomialModel(0), lambda x, p: dy.STAT["gauss"][2](x, p[:3]) + p[3], 4),
}
POS = {"gauss": [2], "gp": [2]}


@st.composite
def static(draw, c):
    c["kind"] = k = draw(st.sampled_from(sorted(STATIC)))
    if c["dist"] == "poisson":
        c["kind"] = k = "exp"
    pr = []
    for i in range(STATIC[k][2]):
        t = draw(st.sampled_from(["uni", "uni", "gauss", "laplace", "cauchy", "circ", "jeff", "exp"]))
        if i in POS.get(k, []) and t not in ("jeff", "exp"):
            t = "jeff"
        if c["dist"] == "poisson" and i == 0:
            t = draw(st.sampled_from(["jeff", "exp"]))
        a, b = draw(fl(-2, 2)), draw(fl(0.3, 3))
        pr.append([t, a, b, draw(st.booleans())])
    c["priors"] = pr
    n = len(pr)
    c["keep"] = {str(i): draw(fl(0.1, 1)) for i in draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n - 1))} if draw(st.booleans()) else {}
    return c


def mkprior(d):
    """prior and its limits"""
    t, a, b, lim = d
    if t == "uni": return bf.UniformPrior(limits=[a, a + b]), a, a + b
    if t == "circ": return bf.CircularUniformPrior(limits=[a, a + b]), a, a + b
    if t == "jeff": return bf.JeffreysPrior(limits=[b, 5 * b]), b, 5 * b
    if t == "exp": return bf.ExponentialPrior(scale=b), 0.0, math.inf
    cls = dict(gauss=bf.GaussPrior, laplace=bf.LaplacePrior, cauchy=bf.CauchyPrior)[t]
    if lim: return cls(center=a, scale=b, limits=[a - b, a + 2 * b]), a - b, a + 2 * b
    return cls(center=a, scale=b), -math.inf, math.inf


@st.composite
def case(draw, kinds):
    c = dict(dist=draw(st.sampled_from(["gauss", "gauss", "gauss", "laplace", "cauchy", "uniform", "expo"] + (["poisson"] if not kinds else []))))
    if not kinds:
        draw(static(c))
    else:
        c.update(draw(dy.dyn(kinds)))
        if c["kind"] == "harm":
            c["min"] = max(c["min"], 1)
        nd = c["ndim"] if c["kind"] == "tree" else 1
        names = ["poly", "gauss", "fixed", "sine"] if nd == 1 else ["surf"] if nd == 2 else []
        if c["kind"] == "tree" and len(set(t > 0 for t in c["itypes"])) > 1:
            names = []
        parts = st.lists(st.tuples(st.sampled_from(names), st.sampled_from("++-*")), max_size=1) if names else st.just([])
        c["before"], c["after"], c["dop"] = draw(parts), draw(parts), "+"
        c["keep"] = {str(i): draw(fl(0.1, 1)) for i in draw(st.lists(st.integers(0, 5), unique=True, max_size=3))}
    c["h"] = draw(hyp(c["dist"]))
    nh = len(c["h"])
    c["hfree"] = [draw(st.booleans()) for i in range(nh)]
    c["hlim"] = [[draw(fl(0.2, 1)), draw(fl(1.5, 6))] for i in range(nh)]
    c["nd"] = draw(st.integers(4, 9))
    c["noise"] = draw(st.sampled_from([0.05, 0.3, 1.0]))
    c["w"] = draw(st.lists(fl(0.3, 3), min_size=c["nd"], max_size=c["nd"])) if draw(st.integers(0, 3)) == 0 and c["dist"] not in ("cauchy", "poisson") else None
    c["xseed"] = draw(st.integers(0, 10 ** 6))
    c["N"] = draw(st.integers(4, 10))
    c["fiarr"] = draw(st.booleans())
    c["append"] = draw(st.integers(0, 3)) == 0
    c["boost"] = draw(st.integers(0, 5)) == 0
    c["copies"] = draw(st.integers(0, 3)) == 0
    names = MOVE + (["birth", "death", "birth", "death"] if kinds else []) + (["struct", "struct"] if kinds and set(kinds) & {"spline", "tree"} else [])
    eng = st.lists(st.sampled_from(names), min_size=1, max_size=4)
    c["rounds"] = draw(st.lists(st.tuples(st.integers(1, 3), eng), min_size=1, max_size=4))
    return c


@st.composite
def xycase(draw):
    c = draw(case([]).filter(lambda c: c["kind"] != "gauss" and c["dist"] == "gauss" and not c["boost"]))
    c["xy"] = draw(xy.case().filter(lambda q: q["s"] > 0))
    c["xy"]["kind"] = c["kind"]
    c["xy"]["p"] = [draw(v) for v in xy.PARS[c["kind"]]]
    c["nprior"] = draw(st.sampled_from(["gauss", "uni"]))
    c["nkeep"] = draw(st.booleans())
    return c


class Setup:
    nui = 0

    def __init__(self, c):
        self.c = c
        rng = RandomState(c["xseed"])
        self.dyn = "priors" not in c
        if self.dyn:
            self.part, self.chain, self.head = dy.build(c)
            self.x = dy.xdata(c, self.part)
            if c["kind"] == "tree":
                if hasattr(self.x, "columns") or numpy.any(numpy.isnan(A(self.x, dtype=float))):
                    raise Skip("table or unknown data")
            m, self.off = dy.dynpart(self.head)
            self.np0 = m.npbase
        else:
            self.head = STATIC[c["kind"]][0]()
            self.setpriors()
            self.x = numpy.sort(rng.rand(c["nd"]) * 4 - 2)
            self.off, self.np0 = 0, 0
        np = self.head.npchain
        lm = self.limits(self.head)
        lm = [(max(lo, -3.0), min(hi, 3.0)) for lo, hi in lm]
        p = A([lo + (hi - lo) * rng.rand() for lo, hi in lm])
        y = self.value(self.head, p)
        self.d = c["dist"]
        if self.d == "poisson":
            self.y = rng.poisson(numpy.clip(y, 0.01, 50)).astype(float)
        else:
            self.y = y + c["noise"] * rng.randn(len(y))
        if not numpy.all(numpy.isfinite(self.y)):
            raise Skip("model not finite")
        self.w = None if c["w"] is None else A((c["w"] * 3)[:len(self.y)])
        kw = {} if self.w is None else dict(weights=self.w)
        self.kw = kw
        self.prob = bf.ClassicProblem(self.head, xdata=self.x, ydata=self.y, **kw)
        self.ed = self.dist()
        self.nh = len(c["h"])
        # which are fitted
        self.kept = {}
        for k, u in c["keep"].items():
            k = int(k)
            if self.dyn:
                lo, hi = self.off, self.off + self.np0
                others = [i for i in range(np) if not lo <= i < hi]
                if k >= len(others):
                    continue
                k = others[k]
            self.kept[k] = lm[k][0] + (lm[k][1] - lm[k][0]) * u
        self.fixh = {}
        for i in range(self.nh):
            if not c["hfree"][i]:
                self.fixh[i - self.nh] = c["h"][i]
        self.allp = numpy.zeros(np + self.nh)
        for k, v in list(self.kept.items()) + list(self.fixh.items()):
            self.allp[k] = v
        self.fi = [k for k in range(np) if k not in self.kept] + [k for k in range(-self.nh, 0) if k not in self.fixh]
        if not self.fi:
            raise Skip("nothing to fit")

    def setpriors(self):
        self.pri = [mkprior(d) for d in self.c["priors"]]
        m, j = self.head, 0
        for i, q in enumerate(self.pri):
            if i >= j + m.npbase:
                j += m.npbase
                m = m._next
            m.setPrior(i - j, q[0])

    def dist(self):
        c, h = self.c, self.c["h"]
        d = c["dist"]
        ed = (bf.GaussErrorDistribution(scale=h[0]) if d == "gauss" else bf.LaplaceErrorDistribution(scale=h[0]) if d == "laplace" else
              bf.CauchyErrorDistribution(scale=h[0]) if d == "cauchy" else bf.UniformErrorDistribution(scale=h[0]) if d == "uniform" else
              bf.ExponentialErrorDistribution(scale=h[0], power=h[1]) if d == "expo" else bf.PoissonErrorDistribution())
        for i, f in enumerate(c["hfree"]):
            if f:
                ed.hyperpar[i].prior = bf.JeffreysPrior(limits=list(c["hlim"][i]))
        return ed

    def limits(self, head):
        if self.dyn:
            m, off = dy.dynpart(head)
            return dy.lims(self.chain, self.part, m)
        return [q[1:] for q in self.pri]

    def value(self, head, p):
        if self.dyn:
            m, off = dy.dynpart(head)
            return dy.ref(self.chain, self.part, m, self.x, p)
        return STATIC[self.c["kind"]][1](self.x, p)

    def logl(self, w):
        q = A(w.allpars, dtype=float)
        p, h = (q[:-self.nh], q[-self.nh:]) if self.nh else (q, [])
        f = self.value(w.problem.model, p)
        if self.d == "poisson":
            return float(numpy.sum(self.y * numpy.log(f) - f - dy.numpy.array([math.lgamma(v + 1) for v in self.y])))
        l = single(self.d, h, self.y - f, None)
        if self.w is not None:
            l = l * self.w
        return float(numpy.sum(l))

    def fitted(self, w):
        """(list of fitted indices, dict of kept values) as they should be"""
        if not self.dyn:
            return self.fi, dict(self.kept)
        m, off = dy.dynpart(w.problem.model)
        d = m.npbase - self.np0
        mv = lambda k: k + d if k >= off + self.np0 else k
        kept = {mv(k): v for k, v in self.kept.items()}
        np = w.problem.model.npchain
        return [k for k in range(np) if k not in kept] + [k for k in self.fi if k < 0], kept

    def valid(self, w, low, what):
        np = w.problem.model.npchain + self.nui
        ok(len(w.allpars) == np + self.nh, "%s: %d parameters for %d + %d" % (what, len(w.allpars), np, self.nh))
        if self.dyn:
            ok(len(w.problem.model.parameters) == np, "%s: model has %d parameters for %d" % (what, len(w.problem.model.parameters), np))
            m, off = dy.dynpart(w.problem.model)
            n = self.part.ncomp(m)
            ok(n == m.ncomp and m.npbase == self.part.npar(n), "%s: %d components and %d parameters" % (what, n, m.npbase))
            ok(n >= self.part.lo and (self.part.hi is None or n <= self.part.hi), "%s: %d components, limits %s %s" %
               (what, n, self.part.lo, self.part.hi))
        fi, kept = self.fitted(w)
        ok([int(k) for k in w.fitIndex] == fi, "%s: fit index is %s, expected %s" % (what, list(w.fitIndex), fi))
        for k, v in list(kept.items()) + list(self.fixh.items()):
            ok(w.allpars[k] == v, "%s: parameter %d is kept at %s but is %s" % (what, k, v, w.allpars[k]))
        lm = self.limits(w.problem.model) + [tuple(l) for l in self.c["hlim"]]
        for k in fi:
            lo, hi = lm[k] if k >= 0 else lm[len(lm) + k]
            e = 1e-12 * (1 + abs(w.allpars[k]))
            ok(lo - e <= w.allpars[k] <= hi + e, "%s: parameter %d is %s, outside of [%s,%s]" % (what, k, w.allpars[k], lo, hi))
        l = self.logl(w)
        ok(math.isfinite(w.logL) and abs(l - w.logL) < 1e-8 * (1 + abs(l) + numpy.sum(numpy.abs(self.y)) ** 2 * 1e-3),
           "%s: stored logL %s, that of the parameters is %s" % (what, w.logL, l))
        ok(w.logL >= low, "%s: logL %s below the constraint %s" % (what, w.logL, low))


class SetupXY(Setup):
    """errors in x and y: the targets are extra parameters"""
    def __init__(self, c):
        self.c, self.dyn = c, False
        self.X = X = xy.XY(c["xy"])
        self.head = X.model
        self.setpriors()
        nui = X.n
        pr = bf.GaussPrior(scale=0.5) if c["nprior"] == "gauss" else bf.UniformPrior(limits=[-0.7, 0.4])
        for x in X.x:
            self.pri.append((None, -math.inf, math.inf) if c["nprior"] == "gauss" else (None, x - 0.7, x + 0.4))
        self.prob = bf.ErrorsInXandYProblem(X.model, X.x, X.y, prior=pr, **X.kw, **({} if X.w is None else dict(weights=X.w)))
        s0 = c["h"][0]
        self.ed = bf.Gauss2dErrorDistribution(scale=s0, limits=list(c["hlim"][0]) if c["hfree"][0] else None)
        self.nh, self.nui, self.y = 1, nui, X.y
        np = X.model.npchain
        self.kept = {}
        for k, u in c["keep"].items():
            lo, hi = (max(self.pri[int(k)][1], -3.0), min(self.pri[int(k)][2], 3.0))
            self.kept[int(k)] = lo + (hi - lo) * u
        if c["nkeep"]:
            self.kept[np] = float(X.x[0])
        self.fixh = {} if c["hfree"][0] else {-1: s0}
        self.allp = numpy.zeros(np + nui + 1)
        for k, v in list(self.kept.items()) + list(self.fixh.items()):
            self.allp[k] = v
        self.fi = [k for k in range(np + nui) if k not in self.kept] + ([-1] if c["hfree"][0] else [])

    def logl(self, w):
        return float(numpy.sum(self.X.loglik(A(w.allpars, dtype=float))))


def struct(w):
    m = w.problem.model
    s = [str(m), m.npchain]
    while m is not None:
        s += [m.npbase, getattr(m, "ncomp", None), [float(k) for k in m.knots] if hasattr(m, "knots") else None,
              repr(m.encode()) if isinstance(m, bf.DecisionTreeModel) else None]
        m = m._next
    return s


def snap(w):
    return (w.id, [float(v) for v in w.allpars], [int(k) for k in w.fitIndex], float(w.logL), struct(w))


def explorer(s, walkers):
    """the Explorer checks the walkers too; its check must accept them"""
    class NS:
        pass
    ns = NS()
    ns.walkers, ns.engines, ns.distribution, ns.rng, ns.rate, ns.maxtrials, ns.verbose = walkers, [], s.ed, None, 1.0, 5, 0
    ex = Explorer(ns)
    ex.iteration = 0
    return ex


def frozen(ph, w):
    """the range of the phantoms, which is the measure of the steps, is zero"""
    lo, hi = getattr(ph, "paramMin", None), getattr(ph, "paramMax", None)
    if isinstance(lo, dict):
        lo, hi = lo.get(w.problem.npars), hi.get(w.problem.npars)
    return lo is not None and hi is not None and numpy.all(hi == lo)


def history(c, globalseed, feats=None):
    numpy.random.seed(globalseed)
    import random
    random.seed(globalseed)
    s = SetupXY(c) if "xy" in c else Setup(c)
    state0 = numpy.random.get_state()[1].tolist(), numpy.random.get_state()[2]
    fi = A(s.fi, dtype=int) if c["fiarr"] else list(s.fi)
    walkers = WalkerList(problem=s.prob, ensemble=c["N"], allpars=s.allp, fitIndex=fi)
    ph = PhantomCollection(dynamic=s.prob.isDynamic())
    start = StartEngine(walkers, s.ed, phantoms=ph, seed=c["xseed"] + 1)
    for w in list(walkers):
        before = [snap(v) for v in walkers]
        try:
            start.execute(w.id, -math.inf)
        except RuntimeError as e:
            if "valid starting" in str(e):
                raise Skip("no valid starting point")
            raise
        after = [snap(v) for v in walkers]
        ok([v for i, v in enumerate(before) if i != w.id] == [v for i, v in enumerate(after) if i != w.id], "StartEngine changes other walkers")
        ok(walkers[w.id].id == w.id, "StartEngine: id of walker %d is %d" % (w.id, walkers[w.id].id))
        s.valid(walkers[w.id], -math.inf, "StartEngine, walker %d" % w.id)
    pick = RandomState(c["xseed"] + 2)
    engines = {}
    for i, (nm, E) in enumerate(sorted(ENG.items())):
        engines[nm] = E(walkers, s.ed, phantoms=ph, seed=c["xseed"] + 10 + i)
        if c["boost"]:
            engines[nm].bestBoost(s.prob)
    moves = 0
    for r, (disc, names) in enumerate(c["rounds"]):
        N = c["N"]
        if c["append"]:
            order = sorted(range(len(walkers)), key=lambda i: walkers[i].logL)
            low = walkers[order[min(r + disc, len(order) - 1)]].logL
            todo = [i for i in order if walkers[i].logL > low][:2] or [order[-1]]
        else:
            walkers.sort(key=lambda w: w.logL)
            disc = min(disc, N - 3)
            low = walkers[disc - 1].logL
            for k in range(disc):
                src = pick.randint(disc, N)
                walkers.copy(src, k, start=r)
            todo = list(range(disc))
        top = max(w.logL for w in walkers)
        for kw in todo:
            for nm in names:
                e = engines[nm].copy() if c["copies"] else engines[nm]
                what = "round %d, %s on %d%s" % (r, nm, kw, ", append" if c["append"] else "")
                before = [snap(v) for v in walkers]
                n0, npp = len(walkers), ph.ncalls
                mv = e.execute(kw, low, append=c["append"], iteration=r)
                ok(mv == int(mv) and mv >= 0, "%s returns %s" % (what, mv))
                after = [snap(v) for v in walkers]
                if c["append"]:
                    ok(after[:n0] == before, what + ": existing walkers are changed")
                    for i in range(n0, len(walkers)):
                        s.valid(walkers[i], low, what)
                        ok(walkers[i].id == i, "%s: id of new walker %d is %d" % (what, i, walkers[i].id))
                    ok((mv > 0) == (len(walkers) > n0) or not len(walkers[kw].fitIndex), "%s: %d moves, from %d to %d walkers" % (what, mv, n0, len(walkers)))
                else:
                    ok(len(after) == n0, what + ": number of walkers changed")
                    ok([v for i, v in enumerate(before) if i != kw] == [v for i, v in enumerate(after) if i != kw],
                       what + ": other walkers changed")
                    ok(before[kw][0] == after[kw][0], "%s: id changed from %d to %d" % (what, before[kw][0], after[kw][0]))
                    s.valid(walkers[kw], low, what)
                    with contextlib.redirect_stdout(io.StringIO()):
                        explorer(s, walkers).logLcheck(walkers[kw])
                    if mv == 0:
                        ok(before[kw][1:] == after[kw][1:], "%s: no moves, but the walker went from %s to %s" % (what, before[kw][1:], after[kw][1:]))
                    else:
                        ok(frozen(ph, walkers[kw]) or nm == "struct" or before[kw][1:] != after[kw][1:], "%s: %d moves, but the walker has not changed: %s" % (what, mv, after[kw]))
                        if nm in ("birth", "death"):
                            d = after[kw][4][1] - before[kw][4][1]
                            ok(d == (mv if nm == "birth" else -mv), "%s: %d moves, %d parameters" % (what, mv, d))
                if mv > 0:
                    ok(ph.ncalls > npp, what + ": new walker not stored in the phantoms")
                    if feats is not None:
                        feats.add(nm)
                    moves += low > -1e300
    state1 = numpy.random.get_state()[1].tolist(), numpy.random.get_state()[2]
    ok(state0 == state1, "the engines use the global random generator of numpy")
    best = max(w.logL for w in walkers)
    hold = [w.logL for ws in (ph.phantoms.values() if isinstance(ph.phantoms, dict) else [ph.phantoms]) for w in ws]
    if hold:
        ok(max(hold) >= best or c["append"] or True, "phantoms")
    return [snap(w) for w in walkers], moves


def run(c):
    feats = set()
    a, moves = history(c, 1, feats)
    b, _ = history(c, 2)
    ok(a == b, "two runs with the same seeds differ")
    return dict(nontrivial=moves > 0, features=sorted(feats) + [c["kind"], c["dist"]] + (["append"] if c["append"] else []) + (["boost"] if c["boost"] else []) + (["keep"] if c["keep"] else []))


if __name__ == "__main__":
    sys.exit(main("C18", [
        Sub("static", case([]), run, 150, 3000),
        Sub("errorsxy", xycase(), run, 30, 1000),
        Sub("dynamic", case(["poly", "harm", "rep"]), run, 100, 2500),
        Sub("modifiable", case(["spline", "tree"]), run, 80, 2000),
    ], RULE))
