"""problems and error distributions for the likelihood checks, with independent formulas"""
from catalog import *
from pbt import *
from scipy import special
from BayesicFitting.source.Tools import setAttribute as setatt

SCALED = ["gauss", "laplace", "cauchy", "uniform", "expo"]
WEIGHTED = {"gauss", "laplace", "uniform", "expo", "mixed"}
ACCREPL = {"laplace", "cauchy", "uniform", "expo"}        # accuracy replaces the scale; in gauss it is added in quadrature


class CycPoly(bf.PolynomialModel):
    """polynomial whose output is a phase with period 2"""
    def __init__(self, deg=1, copy=None):
        super().__init__(deg, copy=copy)
        setatt(self, "cyclic", 2.0)

    def copy(self):
        return CycPoly(self.degree, copy=self)


def mdl(kind):
    if kind == "poly": return bf.PolynomialModel(1)
    if kind == "gp":
        m = bf.GaussModel()
        m += bf.PolynomialModel(0)
        return m
    if kind == "exp": return bf.ExpModel()
    if kind == "sine": return bf.SineModel()
    if kind == "cyc": return CycPoly(1)
    if kind == "log": return bf.LogisticModel(fixed={0: 1})
    if kind == "sm3": return bf.SoftMaxModel(ndim=2, ndout=3, normed=True)
    if kind == "smx": return bf.SoftMaxModel(ndim=2, ndout=2, offset=True, normed=False)
    if kind == "orb": return bf.StellarOrbitModel(spherical=True)
    if kind == "orbx": return bf.StellarOrbitModel(spherical=False)
    raise ValueError(kind)


PARS = {
    "poly": [fl(-2, 2), fl(-2, 2)],
    "gp": [nz(-2, 2), fl(-1, 1), fl(0.3, 2), fl(-1, 1)],
    "exp": [fl(0.1, 4), fl(-0.8, 0.8)],
    "sine": [fl(0.1, 0.6), fl(-2, 2), fl(-2, 2)],
    "cyc": [fl(-1, 1), fl(-1, 1)],
    "log": [fl(-2, 2), fl(0.3, 2)],
    "sm3": [fl(-2, 2)] * 6,
    "smx": [fl(-2, 2)] * 6,
    "orb": [fl(0.05, 0.8), fl(0.5, 3), fl(2, 9), fl(0, 6), fl(0.2, 2.9), fl(0, 3), fl(0, 6)],
    "orbx": [fl(0.05, 0.8), fl(0.5, 3), fl(2, 9), fl(0, 6), fl(0.2, 2.9), fl(0, 3), fl(0, 6)],
}
NDIM = {"sm3": 2, "smx": 2}
NDOUT = {"sm3": 3, "smx": 2, "orb": 2, "orbx": 2}
CYCLIC = {"cyc": 2.0, "orb": {1: 2 * math.pi}}
RESID = st.one_of(fl(-3, 3), fl(-0.5, 0.5), st.sampled_from([0.0, 0.5, -0.25, 1.0, -1.0, 10.0]))


@st.composite
def hyp(draw, d):
    """description of an error distribution"""
    if d in ("gauss", "laplace", "cauchy", "uniform"):
        return [draw(fl(0.2, 3))]
    if d == "expo":
        return [draw(fl(0.2, 3)), draw(st.one_of(fl(0.6, 4), st.sampled_from([1.0, 2.0])))]
    if d == "mixed":
        a, b = draw(st.sampled_from(SCALED)), draw(st.sampled_from(SCALED))
        f = draw(st.one_of(fl(0.05, 0.95), st.sampled_from([0.0, 1.0]) if draw(st.booleans()) else fl(0.1, 0.9)))
        return [a, draw(hyp(a)), b, draw(hyp(b)), f]
    return []


@st.composite
def likcase(draw, dists=("gauss", "laplace", "cauchy", "uniform", "expo", "poisson", "bernoulli", "mixed"), grad=False, kinds=None):
    d = draw(st.sampled_from(dists))
    if d == "bernoulli":
        kind = draw(st.sampled_from(["log", "sm3"]))
    elif d == "poisson":
        kind = draw(st.sampled_from(["exp", "exp", "poly"]))
    else:
        kind = draw(st.sampled_from(kinds or ["poly", "gp", "exp", "sine", "cyc", "smx", "orb", "orbx"]))
    n = draw(st.integers(1, 6))
    no = NDOUT.get(kind, 1)
    nd = NDIM.get(kind, 1)
    x = [draw(fl(-2.5, 2.5)) for k in range(n)] if nd == 1 else [[draw(fl(-2, 2)) for _ in range(nd)] for k in range(n)]
    c = dict(d=d, kind=kind, x=x, p=[draw(s) for s in PARS[kind]], h=draw(hyp(d)))
    if d == "bernoulli":
        c["y"] = [draw(st.integers(0, max(1, no - 1))) for k in range(n)]
    elif d == "poisson":
        c["y"] = [draw(st.integers(0, 12)) for k in range(n)]
    elif no == 1:
        c["r"] = [draw(RESID) for k in range(n)]
    else:
        c["r"] = [[draw(RESID) for _ in range(no)] for k in range(n)]
    wk = draw(st.sampled_from(["none", "int", "float", "none", "int2"]))
    sh = st.sampled_from(["flat", "full"]) if no > 1 and d != "bernoulli" else st.just("flat")
    c["wsh"], c["ash"] = draw(sh), draw(sh)
    ws = st.integers(0, 4) if wk == "int" else st.integers(1, 3) if wk == "int2" else fl(0.1, 3)
    c["w"] = None if wk == "none" else draw(vec(ws, n, no if c["wsh"] == "full" else 0))
    ak = draw(st.sampled_from(["none", "none", "scalar", "int", "npscalar", "vec"]))
    c["a"] = (None if ak == "none" else draw(fl(0.2, 2)) if ak in ("scalar", "npscalar") else draw(st.integers(1, 3)) if ak == "int" else
              draw(vec(fl(0.2, 2), n, no if c["ash"] == "full" else 0)))
    c["ak"] = ak
    if d in ("bernoulli", "poisson"):
        c["a"], c["ak"] = None, "none"
    if grad:
        c["fi"] = draw(st.integers(0, 10 ** 6))
    return c


def vec(s, n, no):
    return st.lists(s, min_size=n, max_size=n) if no == 0 else st.lists(st.lists(s, min_size=no, max_size=no), min_size=n, max_size=n)


def distof(d, h):
    if d == "gauss": return bf.GaussErrorDistribution(scale=h[0])
    if d == "laplace": return bf.LaplaceErrorDistribution(scale=h[0])
    if d == "cauchy": return bf.CauchyErrorDistribution(scale=h[0])
    if d == "uniform": return bf.UniformErrorDistribution(scale=h[0])
    if d == "expo": return bf.ExponentialErrorDistribution(scale=h[0], power=h[1])
    if d == "poisson": return bf.PoissonErrorDistribution()
    if d == "bernoulli": return bf.BernoulliErrorDistribution()
    if d == "mixed": return bf.MixedErrorDistribution(distof(h[0], h[1]), distof(h[2], h[3]), fraction=h[4])


def hlist(d, h):
    return list(h) if d != "mixed" else list(h[1]) + list(h[3]) + [h[4]]


def hback(d, h, v):
    """hyper-description with the values v"""
    if d != "mixed":
        return list(v)
    n1 = len(h[1])
    return [h[0], list(v[:n1]), h[2], list(v[n1:-1]), v[-1]]


def single(d, h, res, acc):
    """log of the density of each residual"""
    s = h[0] if acc is None else acc
    a = numpy.abs(res)
    if d == "gauss":
        v = h[0] ** 2 + (0 if acc is None else acc ** 2)
        return -0.5 * res ** 2 / v - 0.5 * numpy.log(2 * math.pi * v)
    if d == "laplace": return -a / s - numpy.log(2 * s)
    if d == "cauchy": return numpy.log(s / (math.pi * (s ** 2 + res ** 2)))
    if d == "uniform": return numpy.where(a < s, -numpy.log(2 * s) + 0 * a, -math.inf)
    if d == "expo": return numpy.log(h[1] / (2 * s)) - special.gammaln(1 / h[1]) - (a / s) ** h[1]


def expand(v, n, no):
    """weights / accuracy per datum, flattened"""
    if v is None:
        return None
    v = A(v)
    if v.ndim == 0:
        return numpy.full(n * no, float(v))
    if v.ndim == 1 and no > 1:
        v = numpy.repeat(v, no)
    return v.flatten()


class Lik:
    """problem, distribution and the independent log likelihood of one case"""
    def __init__(self, c, weights="w"):
        self.c = c
        self.d, self.kind = c["d"], c["kind"]
        self.no = NDOUT.get(self.kind, 1)
        self.x = A(c["x"])
        self.n = len(self.x)
        self.p = A(c["p"])
        self.model = mdl(self.kind)
        m0 = self.model.result(self.x, self.p)
        if not numpy.all(numpy.isfinite(m0)):
            raise Skip("model not finite")
        if "y" in c:
            self.y = numpy.asarray(c["y"])
        else:
            self.y = m0 + A(c["r"])
            cy = CYCLIC.get(self.kind)
            if cy is not None:              # data and model are phases in one period
                if isinstance(cy, dict):
                    for k, q in cy.items():
                        self.y[:, k] = m0[:, k] + numpy.clip(A(c["r"])[:, k], -0.9 * q, 0.9 * q)
                else:
                    self.y = m0 + numpy.clip(A(c["r"]), -0.9 * cy, 0.9 * cy)
        if self.no == 1 and self.y.ndim == 2: self.y = self.y[:, 0]
        self.w = None if c["w"] is None else A(c["w"])
        a = c["a"]
        self.a = None if a is None else numpy.float64(a) if c["ak"] == "npscalar" else a if numpy.ndim(a) == 0 else A(a)
        cls = bf.MultipleOutputProblem if self.no > 1 and self.d != "bernoulli" else bf.ClassicProblem
        self.multi = cls is bf.MultipleOutputProblem
        kw = {} if self.d in ("bernoulli", "poisson") else dict(accuracy=self.a)
        if self.w is not None and self.d not in ("cauchy", "poisson", "bernoulli"):
            kw["weights"] = self.w
        elif self.w is not None and self.d != "bernoulli":
            kw["weights"] = self.w              # documented as: silently ignored
        self.kw = kw
        self.cls = cls
        self.prob = cls(self.model, xdata=self.x, ydata=self.y, **kw)
        self.ed = distof(self.d, c["h"])
        self.hv = A(hlist(self.d, c["h"]))
        self.allp = numpy.append(self.p, self.hv)
        self.np = len(self.p)

    def nofl(self):
        return self.no if self.multi else 1

    def weights(self):
        """effective weights, or None"""
        if self.w is None or self.d in ("cauchy", "poisson", "bernoulli"):
            return None
        if self.d == "mixed" and not (self.c["h"][0] != "cauchy" and self.c["h"][2] != "cauchy"):
            raise Skip("weights in a mixture that does not accept them")
        return expand(self.w, self.n, self.nofl())

    def resid(self, p):
        r = self.y - self.model.result(self.x, p)
        cy = CYCLIC.get(self.kind)
        if isinstance(cy, dict):
            for k, q in cy.items():
                r[:, k] -= q * numpy.round(r[:, k] / q)
        elif cy is not None:
            r = r - cy * numpy.round(r / cy)
        return r.flatten()

    def loglik(self, allp=None):
        """array of the log likelihood of each datum"""
        allp = self.allp if allp is None else allp
        p, h = allp[:self.np], hback(self.d, self.c["h"], allp[self.np:])
        if self.d == "poisson":
            m = self.model.result(self.x, p)
            if numpy.any(m == 0):
                raise Skip("zero expectation")
            with numpy.errstate(all="ignore"):
                l = numpy.where(m < 0, -math.inf, self.y * numpy.log(numpy.abs(m)) - m - special.gammaln(self.y + 1.0))
            return l
        if self.d == "bernoulli":
            m = self.model.result(self.x, p)
            if m.ndim == 1:
                return numpy.log(numpy.where(self.y == 0, m, 1 - m))
            return numpy.log(m[numpy.arange(self.n), self.y])
        acc = expand(self.a, self.n, self.nofl())
        r = self.resid(p)
        with numpy.errstate(all="ignore"):
            if self.d == "mixed":
                f = h[4]
                l1, l2 = single(h[0], h[1], r, acc), single(h[2], h[3], r, acc)
                l = l2 if f <= 0 else l1 if f >= 1 else numpy.logaddexp(l1 + math.log(f), l2 + math.log(1 - f))
            else:
                l = single(self.d, h, r, acc)
            w = self.weights()
            if w is not None:
                l = numpy.where(w == 0, 0.0, l * w)
        return l

    def edge(self):
        """residual at a discontinuity of the likelihood"""
        acc = expand(self.a, self.n, self.nofl())
        if self.d in ("poisson", "bernoulli"):
            return False
        r = numpy.abs(self.resid(self.p))
        cy = CYCLIC.get(self.kind)
        if cy is not None and numpy.any(numpy.abs(numpy.abs(r) - (cy if not isinstance(cy, dict) else list(cy.values())[0]) / 2) < 1e-3):
            return True
        hh = [(self.d, self.c["h"])] if self.d != "mixed" else [(self.c["h"][0], self.c["h"][1]), (self.c["h"][2], self.c["h"][3])]
        for d, h in hh:
            if d == "uniform":
                s = h[0] if acc is None else acc
                if numpy.any(numpy.abs(r - s) < 1e-4 * (1 + s)):
                    return True
        return False
