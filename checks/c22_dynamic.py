"""C22: histories of grow / shrink / vary / shuffle / copy on dynamic and modifiable models"""
from env import *
from pbt import *
from numpy.random import RandomState

RULE = ("A dynamic model (polynomial, harmonic, repeated, splines, decision tree) is put at some position of a compound model, "
        "priors are set and a random sequence of grow/shrink/vary/shuffle/copy is applied, with known distinct values put in "
        "the parameters before each step. After each step numbers, limits, parameter list, names, priors, fit index, value and "
        "partials are compared with an own bookkeeping. Non-trivial: at least one step changed the model.")

A = numpy.asarray
TWO_PI = 2 * math.pi

# ---- static parts -------------------------------------------------------------------------------
STAT = {
    "poly": (lambda: bf.PolynomialModel(1), 2, lambda x, p: p[0] + p[1] * x),
    "gauss": (lambda: bf.GaussModel(), 3, lambda x, p: p[0] * numpy.exp(-0.5 * ((x - p[1]) / p[2]) ** 2)),
    "fixed": (lambda: bf.PolynomialModel(2, fixed={1: 0.5}), 2, lambda x, p: p[0] + 0.5 * x + p[1] * x * x),
    "sine": (lambda: bf.SineAmpModel(0.7), 2, lambda x, p: p[0] * numpy.cos(TWO_PI * 0.7 * x) + p[1] * numpy.sin(TWO_PI * 0.7 * x)),
    "surf": (lambda: bf.PolySurfaceModel(1), 3, lambda x, p: p[0] + p[1] * x[:, 0] + p[2] * x[:, 1]),
}
LIMS = {"poly": ([-4.0, -5.0], [4.0, 5.0]), "gauss": ([-3.0, -2.0, 0.5], [3.0, 2.0, 2.5]), "fixed": ([-6.0, -7.0], [6.0, 7.0]),
        "sine": ([-1.5, -2.5], [1.5, 2.5]), "surf": ([-1.0, -2.0, -3.0], [1.0, 2.0, 3.0])}

# ---- inner models of repeating models ---------------------------------------------------------------
INNER = {
    "gauss": (lambda: bf.GaussModel(), 3, STAT["gauss"][2], LIMS["gauss"]),
    "sine": (lambda: bf.SineModel(), 3, lambda x, p: p[1] * numpy.cos(TWO_PI * p[0] * x) + p[2] * numpy.sin(TWO_PI * p[0] * x),
             ([0.1, -2.0, -3.0], [1.1, 2.0, 3.0])),
    "sum": (lambda: bf.PolynomialModel(1) + bf.SineAmpModel(0.3), 4,
            lambda x, p: p[0] + p[1] * x + p[2] * numpy.cos(TWO_PI * 0.3 * x) + p[3] * numpy.sin(TWO_PI * 0.3 * x),
            ([-1.0, -2.0, -3.0, -4.0], [1.0, 2.0, 3.0, 4.0])),
    "fgauss": (lambda: bf.GaussModel(fixed={2: 0.8}), 2,
               lambda x, p: p[0] * numpy.exp(-0.5 * ((x - p[1]) / 0.8) ** 2), ([-3.0, -2.0], [3.0, 2.0])),
}


class Part:
    """own bookkeeping of the dynamic part"""
    modifiable = False
    deltas = True

    def limits(self, k):
        raise NotImplementedError

    def expected(self, op, old, new, seed):
        """True/False/None (None: not predicted)"""
        n, lo, hi = old["ncomp"], self.lo, self.hi
        if op == "grow":
            return hi is None or n < hi
        return n > lo


class Poly(Part):
    def __init__(self, c):
        n = c["n"]
        self.lo, self.hi = c["min"] + 1, None if c["max"] is None else c["max"] + 1
        self.m = bf.PolynomialDynamicModel(n, minDegree=c["min"], maxDegree=c["max"], growPrior=gprior(c))
        self.one = n == 0
        self.m.setLimits(lowLimits=[-2.0, -3.0][:n + 1], highLimits=[2.0, 3.0][:n + 1])

    def limits(self, k, np):
        return (-2.0, 2.0) if k == 0 or self.one else (-3.0, 3.0)

    def npar(self, n):
        return n

    def ncomp(self, m):
        return m.degree + 1

    def value(self, m, x, p):
        return sum((p[k] * x ** k for k in range(len(p))), numpy.zeros(len(x)))

    def survive(self, old, new, n0, n1):
        k = min(n0, n1)
        return list(old[:k]), list(new[:k])


class Harm(Part):
    def __init__(self, c):
        self.lo, self.hi = c["min"] , None if c["max"] is None else c["max"]
        self.period = 2.5
        self.m = bf.HarmonicDynamicModel(c["n"], minOrder=c["min"], maxOrder=c["max"], period=self.period, growPrior=gprior(c))
        self.m.setLimits(lowLimits=[-2.0, -3.0], highLimits=[2.0, 3.0])

    def limits(self, k, np):
        return (-2.0, 2.0) if k % 2 == 0 else (-3.0, 3.0)

    def npar(self, n):
        return 2 * n

    def ncomp(self, m):
        return m.order

    def value(self, m, x, p):
        r = numpy.zeros(len(x))
        for k in range(len(p) // 2):
            a = TWO_PI * (k + 1) * x / self.period
            r = r + p[2 * k] * numpy.cos(a) + p[2 * k + 1] * numpy.sin(a)
        return r

    def survive(self, old, new, n0, n1):
        k = 2 * min(n0, n1)
        return list(old[:k]), list(new[:k])


class Rep(Part):
    def __init__(self, c):
        mk, self.np, self.f, lim = INNER[c["inner"]]
        self.lim = lim
        self.same = [k for k in c["same"] if k < self.np]
        if len(self.same) >= self.np:
            self.same = self.same[:self.np - 1]
        self.idx = [k for k in range(self.np) if k not in self.same]
        self.lo, self.hi = c["min"], c["max"]
        inner = mk()
        if c["late"]:
            self.m = bf.RepeatingModel(c["n"], inner, minComp=c["min"], maxComp=c["max"], growPrior=gprior(c),
                                       same=self.samearg(c))
            inner.setLimits(lowLimits=lim[0], highLimits=lim[1])
        else:
            inner.setLimits(lowLimits=lim[0], highLimits=lim[1])
            self.m = bf.RepeatingModel(c["n"], inner, minComp=c["min"], maxComp=c["max"], growPrior=gprior(c),
                                       same=self.samearg(c))

    def samearg(self, c):
        if not self.same:
            return None
        return self.same[0] if len(self.same) == 1 and c["late"] else list(self.same)

    def comps(self, p):
        out = []
        if len(p):
            cur = list(p[:self.np])
            out.append(list(cur))
            q = self.np
            while q < len(p):
                for j, i in enumerate(self.idx):
                    cur[i] = p[q + j]
                out.append(list(cur))
                q += len(self.idx)
        return out

    def which(self, k):
        return k if k < self.np else self.idx[(k - self.np) % len(self.idx)]

    def limits(self, k, np):
        i = self.which(k)
        return self.lim[0][i], self.lim[1][i]

    def npar(self, n):
        return 0 if n == 0 else self.np + (n - 1) * len(self.idx)

    def ncomp(self, m):
        return m.ncomp

    def value(self, m, x, p):
        return sum((self.f(x, q) for q in self.comps(p)), numpy.zeros(len(x)))

    def survive(self, old, new, n0, n1):
        k = self.npar(min(n0, n1))
        return list(old[:k]), list(new[:k])


class Spline(Part):
    modifiable = True

    def __init__(self, c):
        self.lo, self.hi = c["min"], c["max"]
        self.order = c["order"]
        self.knots0 = [float(k) for k in c["knots"]]
        self.given = A(self.knots0)
        self.m = bf.SplinesDynamicModel(knots=self.given, order=self.order, minKnots=c["min"], maxKnots=c["max"],
                                        growPrior=gprior(c), minDistance=c["mindist"])
        self.dist = c["mindist"] * (self.knots0[-1] - self.knots0[0]) / len(self.knots0)
        self.lim, self.ref = c["slim"], None
        self.m.setLimits(lowLimits=[self.lim[0]], highLimits=[self.lim[1]])

    def limits(self, k, np):
        return tuple(self.lim)

    def npar(self, n):
        return n + self.order - 1

    def ncomp(self, m):
        return len(m.knots)

    def value(self, m, x, p):
        key = tuple(float(k) for k in m.knots)
        if self.ref is None or self.ref[0] != key:
            self.ref = (key, bf.BasicSplinesModel(knots=A(key), order=self.order))
        return self.ref[1].result(x, A(p))

    def room(self, kn):
        return numpy.any(numpy.diff(kn) > 2 * self.dist)

    def check(self, old, new, op, changed):
        kn, ko = A(new["knots"]), A(old["knots"])
        ok(list(self.given) == self.knots0, "the knots given by the user are changed into %s" % self.given)
        ok(kn[0] == self.knots0[0] and kn[-1] == self.knots0[-1], "endpoints of the knots have moved")
        ok(numpy.all(numpy.diff(kn) > 0), "knots not ascending: %s" % kn)
        if changed and op == "grow":
            ok(len(set(kn) - set(ko)) == 1 and set(ko) <= set(kn), "grow: knots %s into %s" % (ko, kn))
            ok(numpy.min(numpy.diff(kn)) >= min(self.dist, numpy.min(numpy.diff(ko))) * (1 - 1e-9), "grow: knots too close %s" % kn)
        if changed and op == "shrink":
            ok(len(set(ko) - set(kn)) == 1 and set(kn) <= set(ko), "shrink: knots %s into %s" % (ko, kn))
        if changed and op == "vary":
            ok(len(kn) == len(ko) and numpy.sum(kn != ko) <= 1, "vary: knots %s into %s" % (ko, kn))
            k = numpy.flatnonzero(kn != ko)
            if len(k):
                ok(min(kn[k[0]] - kn[k[0] - 1], kn[k[0] + 1] - kn[k[0]]) >= self.dist * (1 - 1e-9), "vary: knots too close: %s" % kn)

    def survive(self, old, new, n0, n1):
        return None


class Tree(Part):
    modifiable = True

    def __init__(self, c):
        self.lo, self.hi = 0, None
        self.ndim = c["ndim"]
        self.itypes = c["itypes"]
        self.m = bf.DecisionTreeModel(ndim=self.ndim, depth=c["depth"], kdim=list(c["kdim"]), split=c["split"],
                                      itypes=list(c["itypes"]), growPrior=gprior(c))
        self.m.setLimits(lowLimits=[-1.0], highLimits=[2.0])

    def limits(self, k, np):
        return (-1.0, 2.0)

    def npar(self, n):
        return n + 1

    def ncomp(self, m):
        return len(m.encodeflat) if hasattr(m, "encodeflat") else self.tree(m)[1]

    def tree(self, m):
        """(leaves, branches)"""
        if m.left is None:
            return 1, 0
        a, b = self.tree(m.left), self.tree(m.rite)
        return a[0] + b[0], a[1] + b[1] + 1

    def paths(self, m, pre=""):
        if m.left is None:
            return [pre]
        return self.paths(m.left, pre + "L") + self.paths(m.rite, pre + "R")

    def value(self, m, x, p):
        xx = x.reshape(len(x), -1) if isinstance(x, numpy.ndarray) else None
        out = numpy.full(len(x), numpy.nan)
        pars = list(p)

        def rec(t, idx):
            if t.left is None:
                v = pars.pop(0)
                out[idx] = v
                return
            if len(idx):
                d = x.columns[t.dimension].data[idx] if xx is None else xx[idx, t.dimension]
                if self.itypes[min(t.dimension, len(self.itypes) - 1)] == 0:
                    lo, hi = numpy.nanmin(d), numpy.nanmax(d)
                    cut = lo + (hi - lo) * t.split
                    sel = d > cut
                    if t.split >= 0.5:              # unknown data go to the smaller side
                        sel = sel | numpy.isnan(d)
                else:
                    mk = int(t.mask)
                    d = d.astype(int)
                    sel = (d & mk) != 0 if mk >= 2 else d == mk
                rec(t.left, idx[sel])
                rec(t.rite, idx[~sel])
            else:
                rec(t.left, idx)
                rec(t.rite, idx)
        rec(m, numpy.arange(len(x)))
        ok(not pars, "more parameters than leaves")
        return out

    def check(self, old, new, op, changed):
        m = new["model"]
        ok(m.check(), "the tree does not pass its own check: %s" % m.fullName())
        ok(m.count() == self.tree(m), "count %s" % (m.count(),))
        code, dims, sp = m.encode()
        if not isinstance(dims, list) or not dims:
            return
        d = bf.DecisionTreeModel(ndim=self.ndim, itypes=list(self.itypes), code=code, kdim=list(dims), split=list(sp))
        ok(repr(d.encode()) == repr((code, dims, sp)), "decoded tree %s of %s" % (d.encode(), (code, dims, sp)))
        ok(self.paths(d) == self.paths(m) and d.npbase == m.npbase and d.ncomp == m.ncomp and len(d.parameters) == m.npbase,
           "decoded tree has %d parameters, %d components" % (d.npbase, d.ncomp))
        p = numpy.arange(m.npbase) * 0.1
        x = new["x"]
        ok(numpy.array_equal(d.result(x, p), self.value(m, x, p)), "result of the decoded tree")

    def survive(self, old, new, n0, n1):
        return None

    def survivet(self, pold, old, pnew, new):
        """leaves with the same path keep their value; a collapsed or split leaf may get another"""
        a, b = dict(zip(pold, old)), dict(zip(pnew, new))
        com = [q for q in pold if q in b]
        return [a[q] for q in com], [b[q] for q in com]


KIND = dict(poly=Poly, harm=Harm, rep=Rep, spline=Spline, tree=Tree)


def gprior(c):
    if c["gp"] == "exp":
        return bf.ExponentialPrior(scale=3)
    return None


# ---- generators ---------------------------------------------------------------------------------

@st.composite
def dyn(draw, kinds):
    k = draw(st.sampled_from(kinds))
    c = dict(kind=k, gp=draw(st.sampled_from(["exp", "def"])))
    if k == "poly":
        c["min"] = draw(st.integers(0, 2)); c["n"] = c["min"] + draw(st.integers(0, 2))
        c["max"] = draw(st.none() | st.integers(c["n"], c["n"] + 3))
    elif k == "harm":
        c["min"] = draw(st.integers(1, 2)); c["n"] = c["min"] + draw(st.integers(0, 2))
        c["max"] = draw(st.none() | st.integers(c["n"], c["n"] + 3))
    elif k == "rep":
        c["inner"] = draw(st.sampled_from(sorted(INNER)))
        c["same"] = draw(st.lists(st.integers(0, 3), unique=True, max_size=2))
        c["min"] = draw(st.integers(0, 1)); c["n"] = c["min"] + draw(st.integers(0, 3))
        c["max"] = draw(st.none() | st.integers(max(c["n"], c["min"] + 1), c["n"] + 3))
        c["late"] = draw(st.booleans())
    elif k == "spline":
        c["order"] = draw(st.integers(0, 4))
        n = draw(st.integers(2, 5))
        steps = draw(st.lists(st.sampled_from([0.5, 1.0, 2.0]), min_size=n - 1, max_size=n - 1))
        c["knots"] = [-2.0] + [float(v) for v in -2.0 + numpy.cumsum(steps)]
        c["min"] = draw(st.integers(2, n)); c["max"] = draw(st.none() | st.integers(n, n + 3))
        c["mindist"] = draw(st.sampled_from([0.01, 0.1, 0.4]))
        c["slim"] = draw(st.sampled_from([[-2.0, 2.0], [1.0, 3.0], [-5.0, -1.0]]))
    else:
        c["ndim"] = draw(st.integers(1, 3))
        c["itypes"] = [draw(st.sampled_from([0, 0, 1, 3])) for i in range(c["ndim"])]
        c["depth"] = draw(st.integers(0, 2))
        nb = 2 ** c["depth"] - 1
        c["kdim"] = [draw(st.integers(0, c["ndim"] - 1)) for i in range(nb)]
        c["split"] = [draw(st.sampled_from([0.2, 0.35, 0.5, 0.65, 0.8])) for i in range(max(nb, 1))]
    return c


@st.composite
def history(draw, kinds, nops=8, opset=("grow", "shrink", "vary", "shuffle", "copy", "keepcopy")):
    c = draw(dyn(kinds))
    nd = c["ndim"] if c["kind"] == "tree" else 1
    names = ["poly", "gauss", "fixed", "sine"] if nd == 1 else ["surf"] if nd == 2 else []
    if c["kind"] == "tree" and len(set(t > 0 for t in c["itypes"])) > 1:
        names = []
    parts = lambda m: st.lists(st.tuples(st.sampled_from(names), st.sampled_from("+-*")), max_size=m) if names else st.just([])
    c["before"] = draw(parts(2))
    c["after"] = draw(parts(2))
    c["dop"] = draw(st.sampled_from("+-*"))
    ops = st.tuples(st.sampled_from(opset + ("grow", "shrink")), st.integers(0, 10 ** 6), st.booleans())
    c["ops"] = draw(st.lists(ops, min_size=1, max_size=nops))
    c["xseed"] = draw(st.integers(0, 10 ** 6))
    return c


# ---- the check --------------------------------------------------------------------------------------

def build(c):
    part = KIND[c["kind"]](c)
    chain = [(n, o, STAT[n]) for n, o in c["before"]] + [("dyn", c["dop"], None)] + [(n, o, STAT[n]) for n, o in c["after"]]
    head = None
    for n, o, s in chain:
        if n == "dyn":
            m = part.m
        else:
            m = s[0]()
            m.setLimits(lowLimits=LIMS[n][0], highLimits=LIMS[n][1])
        if head is None:
            head = m
        elif o == "+":
            head.addModel(m)
        elif o == "-":
            head.subtractModel(m)
        else:
            head.multiplyModel(m)
    return part, chain, head


def dynpart(head):
    off, m = 0, head
    while not isinstance(m, bf.Dynamic):
        off += m.npbase
        m = m._next
    return m, off


def xdata(c, part):
    rng = RandomState(c["xseed"])
    n = 7
    if c["kind"] == "tree":
        x = rng.rand(n, c["ndim"])
        for d, t in enumerate(c["itypes"]):
            if t == 1:
                x[:, d] = rng.randint(0, 2, n)
            elif t > 1:
                x[:, d] = 2 ** rng.randint(0, t, n)
        if c["ndim"] == 1:
            x = x[:, 0]
        if all(t == 0 for t in c["itypes"]) and c["xseed"] % 3 == 0 and not c["before"] + c["after"]:
            x[3] = x[5] = numpy.nan
        if all(t == 0 for t in c["itypes"]):
            return x
        if all(t > 0 for t in c["itypes"]):
            return x.astype(int)
        from astropy.table import Table             # columns of different types
        return Table([x[:, d] if t == 0 else x[:, d].astype(int) for d, t in enumerate(c["itypes"])])
    if c["kind"] == "spline":
        k = part.knots0
        return numpy.sort(k[0] + (k[-1] - k[0]) * (0.01 + 0.98 * rng.rand(n)))
    return numpy.sort(rng.rand(n) * 4 - 2)


def ref(chain, part, m, x, p):
    res, q = None, 0
    for n, o, s in chain:
        k = m.npbase if n == "dyn" else s[1]
        v = part.value(m, x, p[q:q + k]) if n == "dyn" else s[2](x, p[q:q + k])
        q += k
        res = v if res is None else res + v if o == "+" else res - v if o == "-" else res * v
    ok(q == len(p), "the chain uses %d of %d parameters" % (q, len(p)))
    return res


def lims(chain, part, m):
    out = []
    for n, o, s in chain:
        out += [part.limits(k, m.npbase) for k in range(m.npbase)] if n == "dyn" else list(zip(*LIMS[n]))
    return out


def state(head, part):
    m, off = dynpart(head)
    d = dict(np=head.npchain, npb=m.npbase, ncomp=part.ncomp(m), pars=list(head.parameters), model=m, off=off, str=str(head),
             names=[head.getParameterName(k) for k in range(head.npchain)])
    if isinstance(part, Spline):
        d["knots"] = [float(k) for k in m.knots]
        ok(m.ncomp == len(m.knots), "ncomp %d" % m.ncomp)
    if isinstance(part, Tree):
        d["paths"] = part.paths(m)
        d["code"] = repr(m.encode())
    ok(m.ncomp == d["ncomp"], "ncomp is %s, it has %d" % (m.ncomp, d["ncomp"]))
    return d


def same(a, b, what):
    for k in a:
        if k != "model":
            ok(a[k] == b[k], "%s: %s was %s and is %s" % (what, k, a[k], b[k]))


def consistent(head, chain, part, x, what, rng):
    m, off = dynpart(head)
    np = sum(m.npbase if n == "dyn" else s[1] for n, o, s in chain)
    ok(head.npchain == np, "%s: npchain %d, sum of the parts %d" % (what, head.npchain, np))
    ok(len(head.parameters) == np, "%s: %d parameters for %d" % (what, len(head.parameters), np))
    n = part.ncomp(m)
    ok(m.npbase == part.npar(n), "%s: %d parameters with %d components" % (what, m.npbase, n))
    ok(n >= part.lo and (part.hi is None or n <= part.hi), "%s: %d components, limits %s %s" % (what, n, part.lo, part.hi))
    ok(head.isDynamic(), "%s: not dynamic any more" % what)
    ok(head.isModifiable() == part.modifiable, "%s: isModifiable is %s" % (what, head.isModifiable()))
    lm = lims(chain, part, m)
    for k in range(np):
        pr = head.getPrior(k)
        ok(pr.lowLimit == lm[k][0] and pr.highLimit == lm[k][1], "%s: prior of parameter %d has limits %s %s, not %s" %
           (what, k, pr.lowLimit, pr.highLimit, lm[k]))
    # put distinct values in
    p = A([lo + (hi - lo) * u for (lo, hi), u in zip(lm, 0.05 + 0.9 * rng.rand(np))])
    head.parameters = p.copy()
    r = ref(chain, part, m, x, p)
    got = A(head.result(x, p))
    if np == 0 and got.shape != r.shape:
        got = got + numpy.zeros(len(r))
    ok(got.shape == r.shape, "%s: result has shape %s, not %s" % (what, got.shape, r.shape))
    sc = 1 + numpy.max(numpy.abs(r))
    ok(numpy.all(numpy.abs(got - r) < 1e-9 * sc), "%s: result %s, expected %s" % (what, got, r))
    if np:
        pt = A(head.partial(x, p))
        ok(pt.shape == (len(r), np), "%s: partial has shape %s" % (what, pt.shape))
        for k in range(np):
            h = 1e-4
            q1, q2 = p.copy(), p.copy()
            q1[k] += h
            q2[k] -= h
            num = (ref(chain, part, m, x, q1) - ref(chain, part, m, x, q2)) / (2 * h)
            ok(numpy.all(numpy.abs(pt[:, k] - num) < 1e-5 * (sc + numpy.max(numpy.abs(num)))),
               "%s: partial to %d is %s, expected %s" % (what, k, pt[:, k], num))
    names = [head.getParameterName(k) for k in range(np)]
    ok(len(names) == np and all(isinstance(s, str) for s in names), "%s: names %s" % (what, names))
    return p


def fitref(fi, kol, dnp):
    """new index of every old parameter"""
    if dnp > 0:
        out = sorted([i + dnp if i >= kol else i for i in fi if i >= 0] + list(range(kol, kol + dnp)))
    else:
        out = [i + dnp if i >= kol else i for i in fi if i >= 0 and not kol + dnp <= i < kol]
    return out + [i for i in fi if i < 0]


def run(c):
    part, chain, head = build(c)
    x = xdata(c, part)
    rng = RandomState(c["xseed"])
    p = consistent(head, chain, part, x, "start", rng)
    changed, feats = 0, {c["kind"], "pos%d" % len(c["before"])}
    others = []
    fi = list(range(head.npchain)) + [-2, -1]
    for i, (op, seed, userng) in enumerate(c["ops"]):
        m, off = dynpart(head)
        what = "step %d, %s" % (i, op)
        old = state(head, part)
        if op in ("copy", "keepcopy"):
            cp = head.copy()
            same(old, state(cp, part), what)
            ok(cp.isModifiable() == head.isModifiable(), "isModifiable not copied")
            if op == "copy":
                others.append((head, old))
                head = cp
            else:
                others.append((cp, state(cp, part)))
            p = consistent(head, chain, part, x, what, rng)
            for j, (h, s) in enumerate(others):
                if h is not head and not (op == "keepcopy" and j == len(others) - 1):
                    same(s, state(h, part), what + ": other copy")
            continue
        r = RandomState(seed)
        if op == "vary":
            if not part.modifiable:
                continue
            res = m.vary(rng=r)
            new = state(head, part)
            same({k: v for k, v in old.items() if k not in ("knots", "code", "str", "names")}, new, what)
            if not res:
                same(old, new, what + " (refused)")
            else:
                changed += 1
                feats.add("vary")
        elif op == "shuffle":
            q = p.copy()
            out = m.shuffle(q, off, m.npbase, r)
            a, b = off, off + m.npbase
            ok(list(out[:a]) + list(out[b:]) == list(p[:a]) + list(p[b:]), what + ": other parameters changed")
            if isinstance(part, Rep):
                ok(sorted(part.comps(out[a:b])) == sorted(part.comps(p[a:b])), "%s: components %s became %s" %
                   (what, part.comps(p[a:b]), part.comps(out[a:b])))
            else:
                ok(list(out) == list(p), what + ": parameters changed")
            res = False
            head.parameters = p.copy()
            new = state(head, part)
        else:
            needs = isinstance(part, (Spline, Tree)) or userng
            kw = dict(rng=r) if needs else {}
            res = m.grow(offset=off, **kw) if op == "grow" else m.shrink(offset=off, **kw)
            ok(res in (True, False), "%s returns %s" % (what, res))
            new = state(head, part)
            exp = part.expected(op, old, new, seed)
            if isinstance(part, Spline) and op == "grow" and not part.room(old["knots"]):
                exp = False
            if not (isinstance(part, Tree) and op == "shrink"):
                ok(res == exp, "%s: %s with %d components; limits %s %s" % (what, res, old["ncomp"], part.lo, part.hi))
            if not res:
                same(old, new, what + " (refused)")
            else:
                changed += 1
                feats.add(op)
                d = new["ncomp"] - old["ncomp"]
                ok(d == 1 if op == "grow" else d == -1 or (isinstance(part, Tree) and d < 0), "%s: components from %d to %d" %
                   (what, old["ncomp"], new["ncomp"]))
                dnp = new["npb"] - old["npb"]
                ok(new["np"] - old["np"] == dnp, what + ": number of parameters in the chain")
                po, pn = p, A(head.parameters)
                ok(len(pn) == len(po) + dnp, what + ": length of the parameters %d" % len(pn))
                ok(list(pn[:off]) == list(po[:off]), "%s: parameters of the parts before: %s were %s" % (what, pn[:off], po[:off]))
                na = len(po) - off - old["npb"]
                ok(list(pn[len(pn) - na:]) == list(po[len(po) - na:]), "%s: parameters of the parts after" % what)
                do, dn = po[off:off + old["npb"]], pn[off:off + new["npb"]]
                if isinstance(part, Tree):
                    sv = part.survivet(old["paths"], do, new["paths"], dn)
                else:
                    sv = part.survive(do, dn, old["ncomp"], new["ncomp"])
                if sv:
                    ok(sv[0] == sv[1], "%s: surviving components had %s and have %s" % (what, sv[0], sv[1]))
                if needs:
                    lm = lims(chain, part, m)
                    for k in range(off, off + new["npb"]):
                        ok(lm[k][0] <= pn[k] <= lm[k][1], "%s: parameter %d is %s, outside of %s" % (what, k, pn[k], lm[k]))
                fi = [int(j) for j in m.alterFitindex(fi, old["npb"], dnp, off)]
                ok(fi == list(range(len(pn))) + [-2, -1], "%s: fit index %s" % (what, fi))
        if hasattr(part, "check"):
            new["x"] = x
            part.check(old, new, op, res)
        if not (op == "shuffle"):
            p = consistent(head, chain, part, x, what, rng)
        for h, s in others:
            same(s, state(h, part), what + ": other copy")
    return dict(nontrivial=changed > 0, features=sorted(feats) + (["copies"] if others else []))


@st.composite
def fitcase(draw):
    n = draw(st.integers(1, 9))
    off = draw(st.integers(0, n))
    loc = draw(st.integers(0, n - off))
    dnp = draw(st.sampled_from([1, 2, 3, -1, -2, -3]))
    sub = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n)) if draw(st.booleans()) else list(range(n))
    return dict(n=n, off=off, loc=loc, dnp=max(dnp, -loc) or 1, fi=sorted(sub) + list(range(-draw(st.integers(0, 2)), 0)))


def runfit(c):
    d = bf.Dynamic()
    p = numpy.arange(c["n"]) + 1.0
    kol, dnp = c["off"] + c["loc"], c["dnp"]
    q = d.alterParameters(p.copy(), c["loc"], dnp, c["off"], value=0.0)
    exp = list(p[:kol]) + [0.0] * dnp + list(p[kol:]) if dnp > 0 else list(p[:kol + dnp]) + list(p[kol:])
    ok(list(q) == exp, "parameters %s, expected %s" % (q, exp))
    fi = [int(k) for k in d.alterFitindex(A(c["fi"], dtype=int), c["loc"], dnp, c["off"])]
    ok(fi == fitref(c["fi"], kol, dnp), "fit index %s at %d %+d: %s, expected %s" % (c["fi"], kol, dnp, fi, fitref(c["fi"], kol, dnp)))
    return dict(nontrivial=True, features=["full" if len(c["fi"]) >= c["n"] else "subset", "%+d" % dnp])


if __name__ == "__main__":
    sys.exit(main("C22", [
        Sub("polynomial", history(["poly"]), run, 60, 1500),
        Sub("harmonic", history(["harm"]), run, 60, 1500),
        Sub("repeating", history(["rep"]), run, 200, 3000),
        Sub("splines", history(["spline"]), run, 120, 3000),
        Sub("tree", history(["tree"]), run, 200, 3000),
        Sub("fitindex", fitcase(), runfit, 200, 4000),
    ], RULE))
