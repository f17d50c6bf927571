from catalog import *
from pbt import *
from scipy import stats

RULE = ("A random prior goes through a random history of setLimits, unsetLimits, setAttributes and copy; after each step it is "
        "compared with an independent (truncated) distribution with the limits, centre and scale that the history implies. "
        "Non-trivial: at least one comparison of both mappings and the density at interior points was made.")

TYPES = ["Uniform", "Jeffreys", "Gauss", "Laplace", "Cauchy", "Exponential", "CircularUniform"]


def limcase(t):
    """limits as fractions: [lo, hi] each possibly None"""
    if t == "Jeffreys":
        lo, w = fl(0.05, 3), fl(0.1, 5)
        return st.tuples(lo, w).map(lambda q: [q[0], round(q[0] + q[1], 3)])
    if t in ("Uniform", "CircularUniform"):
        return st.tuples(fl(-5, 5), fl(0.1, 8)).map(lambda q: [q[0], round(q[0] + q[1], 3)])
    if t == "Exponential":
        return st.tuples(st.one_of(st.none(), fl(0, 2)), st.one_of(st.none(), fl(0.3, 5))).map(
            lambda q: [q[0], None if q[1] is None else round((q[0] or 0) + q[1], 3)])
    return st.tuples(st.one_of(st.none(), fl(-4, 3)), st.one_of(st.none(), fl(0.3, 5))).map(
        lambda q: [q[0], None if q[1] is None else round((q[0] if q[0] is not None else -1) + q[1], 3)])


def case(t):
    scal = t in ("Gauss", "Laplace", "Cauchy", "Exponential")
    init = dict(t=st.just(t), lim=limcase(t), center=fl(-3, 3) if t in ("Gauss", "Laplace", "Cauchy") else st.just(0.0),
                scale=fl(0.3, 3) if scal else st.just(1.0),
                circ=st.sampled_from([None, None, "lim", "period"]) if t in ("Gauss", "Laplace", "Cauchy", "Uniform") else st.just(None),
                period=fl(0.5, 6), nolim=st.booleans())
    ops = [st.fixed_dictionaries(dict(o=st.just("setLimits"), lim=limcase(t))),
           st.fixed_dictionaries(dict(o=st.just("attLimits"), lim=limcase(t))),
           st.fixed_dictionaries(dict(o=st.just("copy"))),
           st.fixed_dictionaries(dict(o=st.just("bad")))]
    if t not in ("Uniform", "Jeffreys", "CircularUniform"):
        ops.append(st.fixed_dictionaries(dict(o=st.just("unset"))))
        ops.append(st.fixed_dictionaries(dict(o=st.just("scale"), scale=fl(0.3, 3))))
        ops.append(st.fixed_dictionaries(dict(o=st.just("both"), scale=fl(0.3, 3), lim=limcase(t))))
    us = st.lists(fl(0.01, 0.99, 3), min_size=2, max_size=5)
    return st.fixed_dictionaries(dict(init=st.fixed_dictionaries(init), ops=st.lists(st.one_of(*ops), max_size=4), u=us))


class Model:
    """what the prior should be"""
    def __init__(self, t, lo, hi, center, scale, circ):
        self.t, self.lo, self.hi, self.c, self.s, self.circ = t, lo, hi, center, scale, circ

    def base(self):
        t = self.t
        if t == "Gauss": return stats.norm(self.c, self.s)
        if t == "Laplace": return stats.laplace(self.c, self.s)
        if t == "Cauchy": return stats.cauchy(self.c, self.s)
        if t == "Exponential": return stats.expon(0, self.s)
        if t == "Jeffreys": return stats.loguniform(self.lo, self.hi)
        return stats.uniform(self.lo, self.hi - self.lo)

    def mass(self):
        b = self.base()
        a, z = b.cdf(self.lo), b.cdf(self.hi)
        return a, z - a

    def pdf(self, x):
        a, m = self.mass()
        return numpy.where((x < self.lo) | (x > self.hi), 0.0, self.base().pdf(x) / m)

    def ppf(self, u):
        a, m = self.mass()
        return self.base().ppf(a + u * m)

    def dlog(self, x):
        t = self.t
        if t == "Gauss": return -(x - self.c) / self.s ** 2
        if t == "Laplace": return -math.copysign(1, x - self.c) / self.s
        if t == "Cauchy": return -2 * (x - self.c) / (self.s ** 2 + (x - self.c) ** 2)
        if t == "Exponential": return -1 / self.s
        if t == "Jeffreys": return -1 / x
        return 0.0


def start(i):
    t, circ = i["t"], i["circ"]
    dlo, dhi = (0.0 if t in ("Jeffreys", "Exponential") else -math.inf), math.inf
    lim = None if i["nolim"] and circ != "lim" and t in ("Gauss", "Laplace", "Cauchy", "Exponential") else list(i["lim"])
    if circ == "lim" and (lim is None or None in lim):
        circ = None
    c, s = i["center"], i["scale"]
    kw = {}
    if circ == "period":
        P = i["period"]
        kw = dict(circular=P)
        lo, hi = (c - P / 2, c + P / 2) if t != "Uniform" else (0.0, P)
    elif circ == "lim":
        if t == "Uniform":
            lo, hi = lim
        else:
            # symmetric as documented
            lo, hi = lim
            c = 0.5 * (lo + hi)
        kw = dict(circular=True, limits=[lo, hi])
    else:
        if t == "Exponential" and lim is not None:
            lim[0] = None
        lo = dlo if lim is None or lim[0] is None else lim[0]
        hi = dhi if lim is None or lim[1] is None else lim[1]
        if t == "Exponential":
            kw = {} if lim is None or lim[1] is None else dict(hilimit=lim[1])
        else:
            kw = {} if lim is None else dict(limits=lim)
    if t in ("Gauss", "Laplace", "Cauchy"):
        kw.update(scale=s)
        if not (circ == "lim" and i["nolim"]):  # without center it is the middle of the period
            kw.update(center=c)
    elif t == "Exponential":
        kw.update(scale=s)
    cls = getattr(bf, t + "Prior")
    return cls(**kw), Model(t, lo, hi, c, s, circ is not None or t == "CircularUniform"), dlo, dhi


def verify(p, m, us, what):
    lim = p.getLimits()
    ok(float(lim[0]) == m.lo and float(lim[1]) == m.hi, "%s: limits %s, expected %s" % (what, lim, [m.lo, m.hi]))
    ok(p.lowLimit == m.lo and p.highLimit == m.hi, what + ": low/high limit")
    a, mass = m.mass()
    if mass < 1e-4:
        raise Skip("limits in the far tail")
    tol = 1e-7 / min(1, mass)
    f = 3.0 if m.circ else 1.0
    xs = []
    for u in us:
        uu = (u + 1) / 3 if m.circ else u
        x = float(p.unit2Domain(uu))
        xs.append(x)
        ex = float(m.ppf(u))
        sc = m.s + abs(ex) + (0 if math.isinf(m.lo) else abs(m.lo)) 
        ok(abs(x - ex) <= 1e-6 * sc / min(1.0, mass) / max(1e-3, min(u, 1 - u)), "%s: unit2Domain(%s)=%s, expected %s" % (what, uu, x, ex))
        ok(m.lo - 1e-9 * sc <= x <= m.hi + 1e-9 * sc, "%s: unit2Domain(%s)=%s outside %s %s" % (what, uu, x, m.lo, m.hi))
        b = float(p.domain2Unit(x))
        ok(abs(b - uu) <= tol, "%s: domain2Unit(unit2Domain(%s))=%s" % (what, uu, b))
        r, er = float(p.result(x)), float(m.pdf(numpy.clip(x, m.lo, m.hi)))
        if m.lo < x < m.hi:
            ok(abs(r - er) <= 1e-6 * er, "%s: result(%s)=%s, expected %s" % (what, x, r, er))
            ok(abs(float(p.logResult(x)) - math.log(er)) <= 1e-6, "%s: logResult(%s)=%s, expected %s" % (what, x, p.logResult(x), math.log(er)))
            ok(abs(float(p.partialDomain2Unit(x)) - er) <= 1e-4 * er, "%s: partialDomain2Unit(%s)" % (what, x))
            if not (m.t == "Laplace" and abs(x - m.c) < 1e-3):
                d = float(p.partialLog(x))
                ok(abs(d - m.dlog(x)) <= 1e-6 * (1 + abs(d)), "%s: partialLog(%s)=%s, expected %s" % (what, x, d, m.dlog(x)))
                nd = p.deltaP
                if m.lo < x - 2 * nd and x + 2 * nd < m.hi and abs(x - m.c) > 2 * nd:
                    d = float(p.numPartialLog(x))
                    ok(abs(d - m.dlog(x)) <= 1e-3 * (1 + abs(d)) * (1 + 1 / max(abs(x), 1e-3)) ** 3, "%s: numPartialLog(%s)=%s, expected %s" % (what, x, d, m.dlog(x)))
            # derivative of the mapping is the inverse of the density
            h = 1e-4 * min(uu, 1 - uu)
            dd = (float(p.unit2Domain(uu + h)) - float(p.unit2Domain(uu - h))) / (2 * h)
            if not (m.t == "Laplace" and abs(x - m.c) < 1e-2 * m.s):
                ok(abs(dd * r - f) <= 2e-3 * f, "%s: d unit2Domain / du = %s at %s, density %s" % (what, dd, uu, r))
        ok(not p.isOutOfLimits(min(max(x, m.lo), m.hi)), what + ": isOutOfLimits inside")
        ok(abs(p.stayInLimits(x) - x) <= 1e-9 * sc, what + ": stayInLimits inside")
    # arrays give the same
    arr = A([(u + 1) / 3 if m.circ else u for u in us])
    ok(numpy.allclose(p.unit2Domain(arr), xs, rtol=1e-12, atol=1e-12), "%s: unit2Domain of an array" % what)
    ok(numpy.allclose(p.domain2Unit(A(xs)), arr, atol=tol), "%s: domain2Unit of an array" % what)
    ok(numpy.allclose(p.result(A(xs)), [float(p.result(x)) for x in xs]), "%s: result of an array" % what)
    # monotone
    o = numpy.argsort(us)
    ok(all(xs[o[i]] <= xs[o[i + 1]] + 1e-12 for i in range(len(o) - 1)), what + ": unit2Domain is not monotone")
    # outside
    for x, inside in ((m.lo - 0.5, False), (m.hi + 0.5, False)):
        if math.isfinite(x) and not (m.t in ("Jeffreys",) and x <= 0):
            ok(float(p.result(x)) == 0.0, "%s: result(%s)=%s outside the limits" % (what, x, p.result(x)))
            ok(float(p.logResult(x)) == -math.inf, "%s: logResult(%s)=%s outside the limits" % (what, x, p.logResult(x)))
            ok(p.isOutOfLimits(x), what + ": isOutOfLimits outside")
            ok(p.stayInLimits(x) == (m.lo if x < m.lo else m.hi), what + ": stayInLimits outside")
            try:
                p.checkLimit(x)
            except ValueError:
                pass
            else:
                fail(what + ": checkLimit passes outside the limits")
    if math.isfinite(m.hi - m.lo):
        ok(abs(p.getRange() - (m.hi - m.lo)) < 1e-12, what + ": getRange")
    ok(bool(p.isCircular()) == m.circ, what + ": isCircular")
    if m.circ:
        P = m.hi - m.lo
        for u, x in zip(us, xs):
            uu = (u + 1) / 3
            for k in (-1 / 3, 1 / 3):
                ok(abs(float(p.unit2Domain(uu + k)) - x) <= 1e-6 * (1 + abs(x)) / max(1e-3, min(u, 1 - u)) / min(1, mass),
                   "%s: unit2Domain(%s) is not periodic" % (what, uu + k))
            if m.t in ("Uniform", "CircularUniform"):
                for k in (-1, 1):
                    y = float(p.unit2Domain(p.domain2Unit(x + k * P)))
                    ok(min(abs(y - x), abs(abs(y - x) - P)) <= 1e-9 * (1 + abs(x) + P), "%s: %s is wrapped to %s, not to %s" % (what, x + k * P, y, x))
    else:
        for u, e in ((0.0, m.lo), (1.0, m.hi)):
            if math.isfinite(e) and m.base().pdf(e) * m.s > 1e-4:
                y = float(p.unit2Domain(u))
                ok(abs(y - e) <= 1e-6 * (1 + abs(e)) / min(1, mass), "%s: unit2Domain(%s)=%s, limit %s" % (what, u, y, e))


def run(case):
    p, m, dlo, dhi = start(case["init"])
    hist = "%s" % {k: v for k, v in case["init"].items()}
    what = hist
    verify(p, m, case["u"], what)
    for op in case["ops"]:
        what = what + " > " + op["o"]
        o = op["o"]
        if o in ("setLimits", "attLimits", "both"):
            lim = op["lim"]
            lo = dlo if lim[0] is None else lim[0]
            hi = dhi if lim[1] is None else lim[1]
            if m.circ and not (math.isfinite(lo) and math.isfinite(hi)):
                continue
            what += "%s" % lim
            if o == "setLimits":
                p.setLimits(lim)
            elif o == "attLimits":
                p.setAttributes(limits=lim)
            else:
                p.setAttributes(limits=lim, scale=op["scale"])
                m.s = op["scale"]
            m.lo, m.hi = lo, hi
            if m.circ and m.t not in ("Uniform", "CircularUniform") and abs(lo + hi - 2 * m.c) > 1e-9:
                # no longer symmetric: circularity is only defined for symmetric priors
                raise Skip("circular prior with asymmetric limits")
        elif o == "unset":
            p.unsetLimits()
            m.lo, m.hi, m.circ = dlo, dhi, False
        elif o == "scale":
            p.setAttributes(scale=op["scale"])
            m.s = op["scale"]
        elif o == "copy":
            q = p
            p = p.copy()
            ok(type(p) is type(q), what + ": type")
        elif o == "bad":
            try:
                p.setLimits([3.0, 1.0])
            except ValueError:
                pass
            else:
                fail(what + ": limits in the wrong order are accepted")
        verify(p, m, case["u"], what)
    ok(p.isBound(), what + ": isBound")
    return "%d ops%s" % (len(case["ops"]), " circular" if m.circ else "")


def runhyper(case):
    """hyperparameters: noise scale with Jeffreys prior, limits"""
    lo, hi = case["lo"], case["lo"] + case["w"]
    h = bf.NoiseScale(scale=case["s"], limits=[lo, hi])
    u = case["u"]
    for step in range(2):
        x = float(h.unit2Domain(u))
        ok(abs(math.log(x / lo) / math.log(hi / lo) - u) < 1e-9, "NoiseScale: unit2Domain(%s)=%s with limits %s" % (u, x, [lo, hi]))
        ok(abs(h.domain2Unit(x) - u) < 1e-9, "NoiseScale: domain2Unit")
        ok(abs(h.partialDomain2Unit(x) * x * math.log(hi / lo) - 1) < 1e-6, "NoiseScale: partialDomain2Unit")
        L = h.getLimits()
        ok(float(L[0]) == lo and float(L[1]) == hi, "NoiseScale: limits %s" % (L,))
        ok(h.isBound(), "NoiseScale: bound")
        lo, hi = case["lo2"], case["lo2"] + case["w"]
        h.setLimits([lo, hi])
    e = bf.GaussErrorDistribution(scale=case["s"], limits=[lo, hi])
    x = float(e.unit2Domain(u, 0))
    ok(abs(math.log(x / lo) / math.log(hi / lo) - u) < 1e-9, "error distribution: unit2Domain(%s)=%s with limits %s" % (u, x, [lo, hi]))
    ok(abs(e.domain2Unit(x, 0) - u) < 1e-9, "error distribution: domain2Unit")
    return "scale"


def hprior(case):
    """a hyperparameter with any prior, set in the constructor or later"""
    lo, hi, u = case["lo"], case["lo"] + case["w"], case["u"]
    pr = {"Uniform": bf.UniformPrior(limits=[lo, hi]), "Jeffreys": bf.JeffreysPrior(limits=[lo, hi]),
          "Exponential": bf.ExponentialPrior(scale=case["s"])}[case["t"]]
    ex = float(pr.unit2Domain(u))
    if case["ctor"]:
        h = bf.HyperParameter(hypar=case["s"], prior=pr.copy())
    else:
        h = bf.HyperParameter(hypar=case["s"])
        h.prior = pr.copy()
    ok(h.prior is not None, "hyperparameter without prior")
    ok(abs(float(h.unit2Domain(u)) - ex) < 1e-12 * (1 + abs(ex)), "hyperparameter with %s: unit2Domain" % pr)
    ok(abs(float(h.domain2Unit(ex)) - u) < 1e-9, "hyperparameter with %s: domain2Unit" % pr)
    c = h.copy()
    h.setLimits([case["lo2"], case["lo2"] + 1])
    ok(abs(float(c.unit2Domain(u)) - ex) < 1e-12 * (1 + abs(ex)), "copy of a hyperparameter with %s changes with the original" % pr)
    ok(c.hypar == case["s"], "copy of a hyperparameter: value")
    e = bf.GaussErrorDistribution(scale=case["s"])
    e.setPriors([pr.copy()])
    ok(abs(float(e.unit2Domain(u, 0)) - ex) < 1e-12 * (1 + abs(ex)), "error distribution with %s: unit2Domain" % pr)
    e2 = bf.ExponentialErrorDistribution(scale=case["s"])
    e2.setPriors([bf.JeffreysPrior(limits=[1., 2.]), pr.copy()])
    ok(abs(float(e2.unit2Domain(u, 1)) - ex) < 1e-12 * (1 + abs(ex)), "error distribution with %s: unit2Domain of the second" % pr)
    return case["t"]


subs = [Sub(t, case(t), run, quick=400) for t in TYPES]
subs.append(Sub("NoiseScale", st.fixed_dictionaries(dict(lo=fl(0.05, 2), lo2=fl(0.05, 2), w=fl(0.1, 5), s=fl(0.1, 5), u=fl(0.01, 0.99))), runhyper, quick=150))
subs.append(Sub("HyperParameter", st.fixed_dictionaries(dict(lo=fl(0.05, 2), lo2=fl(0.05, 2), w=fl(0.1, 5), s=fl(0.1, 5), u=fl(0.01, 0.99),
            t=st.sampled_from(["Uniform", "Jeffreys", "Exponential"]), ctor=st.booleans())), hprior, quick=150))

if __name__ == "__main__":
    sys.exit(main("C08", subs, RULE))
