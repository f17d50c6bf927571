from priors import *
from expr import *
from pbt import *

RULE = ("Random models (bare, fixed, compound, dynamic), priors, error distributions and problems get parameters, priors and limits; "
        "the copy is compared on everything observable, then a random history of changes is applied to one of the two and the other "
        "must not change. Operands of binary operators are compared before and after. Non-trivial: at least one change was applied.")


def close(a, b):
    a, b = A(a), A(b)
    return a.shape == b.shape and numpy.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)


def msnap(m, x, P):
    s = dict(np=int(m.npchain), pars=A(m.parameters).tolist(), str=str(m), short=m.shortName(),
             names=[m.getParameterName(k) for k in range(m.npchain)], nd=int(m.ndim), no=int(m.lastndout),
             len=int(m.chainLength()), dyn=bool(m.isDynamic()),
             std=None if m.stdevs is None else A(m.stdevs).tolist(), res=A(m.result(x, A(P).copy())),
             own=A(m(x)))
    pr = []
    for k in range(m.npchain):
        try:
            pr.append(pdesc(m.getPrior(k)))
        except IndexError:
            pr.append("none")
    s["priors"] = pr
    s["hasPriors"] = bool(m.hasPriors(isBound=False))
    return s


def diff(a, b, what):
    for k in a:
        if isinstance(a[k], numpy.ndarray):
            ok(close(a[k], b[k]), "%s: %s differs: %s and %s" % (what, k, a[k].tolist(), b[k].tolist()))
        elif k in ("pars", "std") and a[k] is not None:
            ok(b[k] is not None and close(a[k], b[k]), "%s: %s differs: %s and %s" % (what, k, a[k], b[k]))
        else:
            ok(a[k] == b[k], "%s: %s differs: %s and %s" % (what, k, a[k], b[k]))


def actions():
    k = st.integers(0, 20)
    return st.lists(st.one_of(
        st.fixed_dictionaries(dict(a=st.just("pars"), v=fls(0.2, 2, 3))),
        st.fixed_dictionaries(dict(a=st.just("par1"), k=k, v=fl(0.2, 2))),
        st.fixed_dictionaries(dict(a=st.just("limits"), k=k, v=fl(0.1, 2), w=fl(0.1, 3))),
        st.fixed_dictionaries(dict(a=st.just("prior"), k=k, p=priorcase())),
        st.fixed_dictionaries(dict(a=st.just("priorlim"), k=k, v=fl(0.1, 2), w=fl(0.1, 3))),
        st.fixed_dictionaries(dict(a=st.just("scale"), k=k, v=fl(4, 6))),
        st.fixed_dictionaries(dict(a=st.just("setlimits"), v=fl(0.1, 2), w=fl(0.1, 3))),
        st.fixed_dictionaries(dict(a=st.just("append"))),
        st.fixed_dictionaries(dict(a=st.just("stdevs"), v=fl(0.1, 2))),
        st.fixed_dictionaries(dict(a=st.just("eval"), v=fl(0.1, 2)))),
        min_size=1, max_size=4)


def act(m, acts, x):
    n = 0
    tame = "rbit" in str(m) or "elocity" in str(m)      # eccentricity below 1
    for a in acts:
        t = a["a"]
        np_ = m.npchain
        k = a.get("k", 0) % np_ if np_ else 0
        if np_ == 0:
            if t == "append" and m.ndim == 1 and m.lastndout == 1:
                m.addModel(bf.PolynomialModel(0))
                n += 1
            continue
        try:
            if t == "pars":
                m.parameters = A([a["v"][i % 3] for i in range(np_)]) * (0.4 if tame else 1)
            elif t == "par1":
                m.parameters[k] = a["v"] * (0.4 if tame else 1)
            elif t == "limits":
                m.setPrior(k, limits=[a["v"], a["v"] + a["w"]])
            elif t == "prior":
                m.setPrior(k, prior=mkprior(a["p"]))
            elif t == "priorlim":
                m.getPrior(k).setLimits([a["v"], a["v"] + a["w"]])
            elif t == "scale":
                if "scale" not in m.getPrior(k).__dict__:
                    continue
                m.getPrior(k).setAttributes(scale=a["v"])
            elif t == "setlimits":
                m.setLimits([a["v"]] * np_, [a["v"] + a["w"]] * np_)
            elif t == "append":
                if m.ndim == 1 and m.lastndout == 1:
                    m.addModel(bf.PolynomialModel(0))
                else:
                    continue
            elif t == "stdevs":
                m.stdevs = A([a["v"]] * np_)
            elif t == "eval":
                m.result(x, A([a["v"] * (0.3 if tame else 1) + 0.1 * i for i in range(np_)]))
                m.partial(x, A([a["v"] * (0.3 if tame else 1) + 0.1 * i for i in range(np_)]))
        except (IndexError, AttributeError, ValueError):
            continue        # refused: priors not defined up to here, other attributes, out of domain
        n += 1
    return n


def setup(m, case, P):
    if len(P):
        m.parameters = A(P)
    np_ = m.npchain
    for k, pc in enumerate(case["priors"]):
        if k >= np_:
            break
        try:
            m.setPrior(k, prior=mkprior(pc))
        except IndexError:
            pass
    if case["std"] and np_:
        m.stdevs = numpy.arange(np_) + 0.5


def checkcopy(m, P, x, case, what, copier=None):
    s0 = msnap(m, x, P)
    c = (copier or (lambda q: q.copy()))(m)
    ok(type(c) is type(m), "%s: copy is a %s" % (what, type(c).__name__))
    diff(s0, msnap(m, x, P), what + ": original after copy")
    diff(s0, msnap(c, x, P), what + ": copy")
    victim, other = (c, m) if case["side"] else (m, c)
    n = act(victim, case["acts"], x)
    diff(s0, msnap(other, x, P), "%s: %s after changing the %s" % ((what,) + (("original", "copy") if case["side"] else ("copy", "original"))))
    # a copy of the (changed) one and a copy of the copy are faithful too
    if victim.npchain == len(P):
        s1 = msnap(victim, x, P)
        diff(s1, msnap(victim.copy().copy(), x, P), what + ": copy of the copy")
    return "%d changes" % n if n else None


EXTRA = dict(priors=st.lists(priorcase(), max_size=4), std=st.booleans(), side=st.booleans(), acts=actions())


def merge(base):
    return st.tuples(base, st.fixed_dictionaries(EXTRA)).map(lambda t: dict(t[0], **t[1]))


def runbare(case):
    s = S[case["m"]]
    if case.get("fix"):
        m = s.make(case["cfg"], fixed={k: case["p"][k] for k in case["fix"]})
        P = [v for k, v in enumerate(case["p"]) if k not in case["fix"]]
    else:
        m, P = s.make(case["cfg"]), case["p"]
    x = xarr(case)
    with numpy.errstate(all="ignore"):
        if not numpy.all(numpy.isfinite(A(m.result(x, A(P).copy())))):
            raise Skip("not finite")
    setup(m, case, P)
    return checkcopy(m, P, x, case, case["m"])


def barecase(s):
    def f(c):
        n = len(c["p"])
        if not s.fixable or n == 0:
            return st.just(c)
        return st.lists(st.integers(0, n - 1), unique=True, max_size=n).map(lambda fx: dict(c, fix=sorted(fx)))
    return merge(s.case().flatmap(f))


def runexpr(case):
    e, x = case["e"], A(case["x"])
    ref(e, x)
    m = build(e, case["how"])
    P = pars(e)
    setup(m, case, P)
    return checkcopy(m, P, x, case, show(e))


def runisolate(case):
    """isolateModel(k) is a copy of the k-th part"""
    e, x = case["e"], A(case["x"])
    ref(e, x)
    m = build(e, case["how"])
    P = pars(e)
    setup(m, case, P)
    s0 = msnap(m, x, P)
    parts = [e[0]] + [b for _, b in e[1:]]
    k = case["k"] % len(parts)
    at = sum(len(pars(q)) for q in parts[:k])
    pk = pars(parts[k])
    iso = m.isolateModel(k)
    what = "%s: part %d" % (show(e), k)
    ok(iso.npchain == len(pk) and close(iso.parameters, pk), "%s: parameters %s, expected %s" % (what, iso.parameters, pk))
    ok(close(iso.result(x, A(pk)), ref(parts[k], x, guard=False)), what + ": result")
    ok(close(iso(x), ref(parts[k], x, guard=False)), what + ": call")
    if s0["std"] is not None:
        ok(close(iso.stdevs, s0["std"][at:at + len(pk)]), "%s: stdevs %s" % (what, iso.stdevs))
    for i in range(len(pk)):
        ex = s0["priors"][at + i]
        if ex != "none":
            ok(pdesc(iso.getPrior(i)) == ex, "%s: prior %d is %s, expected %s" % (what, i, pdesc(iso.getPrior(i)), ex))
    diff(s0, msnap(m, x, P), what + ": compound after isolating")
    act(iso, case["acts"], x)
    diff(s0, msnap(m, x, P), what + ": compound after changing the part")
    return "part %d of %d" % (k, len(parts))


def runfix(case):
    """replacing models inside"""
    s = S[case["m"]]
    x, full = xarr(case), A(case["p"])
    fx = {case["k"] % len(full): build(case["r"])}
    m = s.make(case["cfg"], fixed=fx)
    P = [v for k, v in enumerate(full) if k != case["k"] % len(full)] + pars(case["r"])
    r0 = m.result(x, A(P))
    if not numpy.all(numpy.isfinite(r0)):
        raise Skip("not finite")
    setup(m, case, P)
    return checkcopy(m, P, x, case, "%s with %s" % (case["m"], show(case["r"])))


HEADS = {
    "Bracket": lambda c: bf.BracketModel(bf.PolynomialModel(1) + bf.GaussModel()),
    "Bracket1": lambda c: bf.BracketModel(bf.PolynomialModel(1)),
    "Combi": lambda c: bf.CombiModel(bf.GaussModel(), 2, oper=["add", "mul"][c % 2], addCombi={1: [0.0, 0.7]}, mulCombi={2: [1.0, 2.0]}),
    "CombiCompound": lambda c: bf.CombiModel(bf.GaussModel() * bf.PolynomialModel(1), 3, oper=["add", "mul"][c % 2], addCombi={1: [0.0, 0.7, 1.5]}),
    "Repeating": lambda c: bf.RepeatingModel(1 + c % 3, bf.GaussModel(), dynamic=c % 2 == 0),
    "RepeatingSame": lambda c: bf.RepeatingModel(1 + c % 3, bf.GaussModel(), same=[2], minComp=1, maxComp=4),
    "RepeatingCompound": lambda c: bf.RepeatingModel(1 + c % 3, bf.GaussModel() + bf.PolynomialModel(0), same=3),
    "HarmonicDynamic": lambda c: bf.HarmonicDynamicModel(1 + c % 3),
    "Poly": lambda c: bf.PolynomialModel(1),
}


def runhead(case):
    """containers at any position in a chain"""
    a, b = HEADS[case["h"]](case["c"]), HEADS[case["t"]](case["c2"])
    if a.isDynamic() and b.isDynamic():
        raise Skip("two dynamic models")
    op = case["op"]
    m = a.copy() if op == "-none-" else OPF[op](a, b)
    P = [round(0.3 + 0.37 * ((7 * k + case["c"]) % 11), 2) for k in range(m.npchain)]
    x = A(case["x"])
    setup(m, case, P)
    return checkcopy(m, P, x, case, "%s(%d) %s %s(%d)" % (case["h"], case["c"], op, case["t"], case["c2"]))


OPF = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "|": lambda a, b: a | b}


def runop(case):
    x = A(case["x"])
    ea, eb = case["e"], case["b"]
    ref(ea, x), ref(eb, x)
    a, b = build(ea), build(eb)
    setup(a, case, pars(ea))
    sa, sb = msnap(a, x, pars(ea)), msnap(b, x, pars(eb))
    c = OPF[case["op"]](a, b)
    what = "(%s) %s (%s)" % (show(ea), case["op"], show(eb))
    diff(sa, msnap(a, x, pars(ea)), what + ": left operand")
    diff(sb, msnap(b, x, pars(eb)), what + ": right operand")
    act(c, case["acts"], x)
    diff(sa, msnap(a, x, pars(ea)), what + ": left operand after changing the compound")
    diff(sb, msnap(b, x, pars(eb)), what + ": right operand after changing the compound")
    same = OPF[case["op"]](a, a)
    ok(same.npchain == 2 * a.npchain, what + ": number of parameters of m op m")
    diff(sa, msnap(a, x, pars(ea)), what + ": operand of m op m")
    c2 = OPF[case["op"]](a, b)
    s2 = msnap(c2, x, list(pars(ea)) + list(pars(eb)))
    act(a, case["acts"], x)
    act(b, case["acts"], x)
    diff(s2, msnap(c2, x, list(pars(ea)) + list(pars(eb))), what + ": compound after changing its operands")
    return case["op"]


DYN = {
    "PolynomialDynamic": lambda: bf.PolynomialDynamicModel(2),
    "HarmonicDynamic": lambda: bf.HarmonicDynamicModel(2),
    "Repeating": lambda: bf.RepeatingModel(2, bf.GaussModel()),
    "SplinesDynamic": lambda: bf.SplinesDynamicModel(knots=[-3., -1., 0., 1., 3.]),
    "DecisionTree": lambda: bf.DecisionTreeModel(ndim=1, depth=2, kdim=[0, 0, 0], split=[0.5, 0.3, 0.6]),
    "FreeShape": lambda: bf.FreeShapeModel(4, xlo=-3., xhi=3.),
}


def dynpriors(m):
    for k in range(2):
        try:
            m.setPrior(k, prior=bf.UniformPrior(limits=[-1. - k, 3. + k]))
        except Exception:
            pass


def rundyn(case):
    x = A(case["x"])
    m = DYN[case["m"]]()
    rng = numpy.random.RandomState(case["seed"])
    m.parameters = numpy.round(rng.uniform(0.1, 1, m.npchain), 2)
    ms = [m]
    for i, op in enumerate(case["hist"]):
        q = ms[-1] if op[1] else ms[rng.randint(len(ms))]
        t = op[0]
        snaps = [(r, msnap(r, x, A(r.parameters))) for r in ms if r is not q]
        if t == "copy":
            c = q.copy()
            diff(msnap(q, x, A(q.parameters)), msnap(c, x, A(q.parameters)), "%s: copy (step %d)" % (case["m"], i))
            ms.append(c)
        elif t == "grow" and hasattr(q, "grow") and q.isDynamic():
            dgrow(q, rng)
        elif t == "shrink" and hasattr(q, "shrink") and q.isDynamic():
            dshrink(q, rng)
        elif t == "vary" and q.isModifiable():
            q.vary(rng=rng)
        elif t == "pars":
            q.parameters = numpy.round(rng.uniform(0.1, 1, q.npchain), 2)
        for r, sn in snaps:
            diff(sn, msnap(r, x, A(r.parameters)), "%s: another copy after %s (step %d)" % (case["m"], t, i))
    return "%d copies" % (len(ms) - 1) if len(ms) > 1 else None


class Scr:
    pass


def dprep(m):
    if not m.hasPriors(isBound=False):
        for k in range(m.model.npchain if isinstance(m, bf.RepeatingModel) else m.npbase):
            m.setPrior(k, prior=bf.UniformPrior(limits=[0., 2.]))


def dgrow(m, rng):
    dprep(m)
    m.grow(0, rng=rng)


def dshrink(m, rng):
    dprep(m)
    m.shrink(0, rng=rng)


def runprior(case):
    p = mkprior(case["p"])
    d0 = pdesc(p)
    c = p.copy()
    diff(dict(d=d0), dict(d=pdesc(c)), "copy of %s" % d0["s"])
    v, o = (c, p) if case["side"] else (p, c)
    n = 0
    for a in case["acts"]:
        try:
            if a["a"] == "lim":
                v.setLimits([a["v"], a["v"] + a["w"]])
            elif a["a"] == "scale":
                if "scale" not in v.__dict__:
                    continue
                v.setAttributes(scale=a["v"])
            elif a["a"] == "unset":
                v.unsetLimits()
            else:
                v.unit2Domain(0.3)
            n += 1
        except ValueError:
            pass
    diff(dict(d=d0), dict(d=pdesc(o)), "%s: the other one after a change of one" % d0["s"])
    return "%d changes" % n if n else None


ERR = ["Gauss", "Laplace", "Cauchy", "Uniform", "Exponential", "Poisson", "Bernoulli", "Mixed", "Gauss2d", "Model"]


def mkerr(c):
    kw = {}
    if c["scale"] is not None:
        kw["scale"] = c["scale"]
    if c["lim"]:
        kw["limits"] = [0.1, 10.0]
    t = c["t"]
    if t == "Gauss": return bf.GaussErrorDistribution(**kw)
    if t == "Laplace": return bf.LaplaceErrorDistribution(**kw)
    if t == "Cauchy": return bf.CauchyErrorDistribution(**kw)
    if t == "Uniform": return bf.UniformErrorDistribution(**kw)
    if t == "Exponential":
        return bf.ExponentialErrorDistribution(scale=kw.get("scale", 1.0), power=c["power"],
                                               limits=[[0.1, 0.5], [10.0, 5.0]] if c["lim"] else None)
    if t == "Poisson": return bf.PoissonErrorDistribution()
    if t == "Bernoulli": return bf.BernoulliErrorDistribution()
    if t == "Mixed":
        e = bf.MixedErrorDistribution(bf.GaussErrorDistribution(scale=kw.get("scale", 1.0), limits=kw.get("limits")),
                                      bf.LaplaceErrorDistribution(scale=3.0, limits=kw.get("limits")))
        return e
    if t == "Gauss2d": return bf.Gauss2dErrorDistribution()
    return bf.ModelDistribution(**kw)


def epr(e):
    d = dict(t=type(e).__name__, hy=A(e.hypar).tolist(), fixed=[(bool(getattr(h, 'fixed', False)), bool(h.isFixed)) for h in e.hyperpar],
             fx=None if e.fixed is None else {str(k): float(v) for k, v in e.fixed.items()},
             pri=[pdesc(h.prior) for h in e.hyperpar], bound=None, n=int(e.nphypar), s=str(e))
    return d


def errcase():
    return st.fixed_dictionaries(dict(
        t=st.sampled_from(ERR), scale=st.one_of(st.none(), fl(0.3, 4)), lim=st.booleans(), power=fl(0.6, 3), seed=st.integers(0, 99),
        side=st.booleans(),
        acts=st.lists(st.one_of(st.tuples(st.just("scale"), fl(0.2, 5)), st.tuples(st.just("limits"), fl(0.1, 2)),
                                st.tuples(st.just("keep"), fl(0.2, 3)), st.tuples(st.just("unkeep"), fl(0.2, 3)),
                                st.tuples(st.just("logL"), fl(0.2, 3))).map(list), min_size=1, max_size=3)))


def mkproblem(t, seed, n=6):
    rng = numpy.random.RandomState(seed)
    x = numpy.linspace(0, 3, n)
    if t == "Poisson":
        return bf.ClassicProblem(bf.PolynomialModel(1), x, rng.poisson(3, n)), [1.0, 2.0]
    if t == "Bernoulli":
        return bf.ClassicProblem(bf.LogisticModel(fixed={0: 1.0}), x, rng.randint(0, 2, n)), [1.0, 0.8]
    if t == "Gauss2d":
        return bf.ErrorsInXandYProblem(bf.PolynomialModel(1), x, x + rng.randn(n), accuracy=[0.3, 0.4]), None
    if t == "Model":
        m = bf.PolynomialDynamicModel(1)
        m.setLimits([-10., -10.], [10., 10.])
        return bf.EvidenceProblem(m, x, x + rng.randn(n)), [0.2, 1.0]
    return bf.ClassicProblem(bf.PolynomialModel(1), x, x + rng.randn(n)), [0.2, 1.0]


def elogl(e, t, seed):
    pr, p = mkproblem(t, seed)
    if p is None:
        p = [0.1, 0.9] + list(pr.xdata)
    try:
        return float(e.logLikelihood(pr, A(list(p) + list(e.hypar))))
    except Exception as ex:
        return type(ex).__name__


def runerr(case):
    e = mkerr(case)
    what = "%sErrorDistribution scale=%s limits=%s" % (case["t"], case["scale"], case["lim"])
    d0 = epr(e)
    L0 = elogl(e, case["t"], case["seed"]) if case["t"] != "Model" else None
    c = e.copy()
    diff(d0, epr(e), what + ": original after copy")
    diff(d0, epr(c), what + ": copy")
    if L0 is not None:
        L1 = elogl(c, case["t"], case["seed"])
        ok(L0 == L1 or (isinstance(L0, float) and math.isnan(L0)), "%s: likelihood of the copy %s, was %s" % (what, L1, L0))
    v, o = (c, e) if case["side"] else (e, c)
    n = 0
    for a, val in case["acts"]:
        if v.nphypar == 0:
            break
        try:
            if a == "scale":
                v.hyperpar[0].hypar = val
            elif a == "limits":
                v.setLimits([val, 10 * val] if v.nphypar == 1 else [[val] * 2, [10 * val] * 2])
            elif a == "keep":
                v.fixed = v.keepFixed({0: val})
            elif a == "unkeep":
                v.fixed = v.keepFixed(None)
            elif a == "logL":
                elogl(v, case["t"], case["seed"])
            n += 1
        except (IndexError, AttributeError, ValueError):
            pass
    diff(d0, epr(o), what + ": the other one after %s" % case["acts"])
    return "%s %d" % (case["t"], min(n, 1))


PROB = ["Classic", "ClassicDyn", "Multi", "XY", "Evidence", "Salesman"]


def mkprob(c):
    rng = numpy.random.RandomState(c["seed"])
    n = 6
    x = numpy.linspace(0, 3, n)
    w = rng.randint(1, 4, n).astype(float) if c["w"] else None
    y = numpy.round(x + rng.randn(n), 2)
    acc = {0: None, 1: 0.3, 2: numpy.round(rng.uniform(0.2, 1, n), 2)}[c["acc"]]
    t = c["t"]
    if t == "Classic":
        return bf.ClassicProblem(bf.PolynomialModel(1), x, y, weights=w, accuracy=acc), A([0.1, 0.9])
    if t == "ClassicDyn":
        return bf.ClassicProblem(bf.PolynomialDynamicModel(1), x, y, weights=w, accuracy=acc), A([0.1, 0.9])
    if t == "Multi":
        m = bf.StellarOrbitModel()
        return bf.MultipleOutputProblem(m, x, numpy.round(rng.randn(n, 2), 2), weights=w, accuracy=acc), A([0.3, 1, 2, 0.5, 0.5, 0.5, 0.5])
    if t == "XY":
        p = bf.ErrorsInXandYProblem(bf.PolynomialModel(1), x, y, weights=w,
                                    accuracy=[0.3, 0.4] if acc is None else
                                    ([0.3, 0.4, 0.2] if numpy.ndim(acc) == 0 else numpy.stack([acc, acc + 0.1], axis=1)))
        return p, A([0.1, 0.9] + list(x + 0.1))
    if t == "Evidence":
        m = bf.PolynomialDynamicModel(1)
        m.setLimits([-10., -10.], [10., 10.])
        return bf.EvidenceProblem(m, x, y, weights=w), A([0.1, 0.9])
    return bf.SalesmanProblem(numpy.round(rng.rand(n, 2), 2), weights=w, distance=["euclid", "manhattan", "spherical"][c["acc"]]), numpy.arange(n)


def psnap(p, P):
    d = dict(x=A(p.xdata), str=str(p), np=int(p.npars), w=p.weights is not None)
    if p.weights is not None:
        d["wv"] = A(p.weights)
    if p.ydata is not None:
        d["y"] = A(p.ydata)
    d["res"] = A(p.result(P))
    if p.model is not None:
        d["m"] = str(p.model)
        d["np2"] = int(p.model.npchain)
        try:
            d["wr"] = A(p.weightedResSq(P))
        except Exception as e:
            d["wr"] = type(e).__name__
    d["sw"] = num(p.sumweight) if p.ydata is not None else None
    d["dist"] = str(p.myDistribution())
    d["varyy"] = A(p.varyy) if p.model is not None else None
    return d


def runprob(case):
    p, P = mkprob(case)
    what = "%sProblem" % case["t"]
    d0 = psnap(p, P)
    c = p.copy()
    ok(type(c) is type(p), what + ": type of the copy")
    diff(d0, psnap(p, P), what + ": original after copy")
    diff(d0, psnap(c, P), what + ": copy")
    e = p.myDistribution()
    if case["t"] in ("ClassicDyn", "Evidence"):
        v, o = (c, p) if case["side"] else (p, c)
        v.model.grow(0)
        diff(d0, psnap(o, P), what + ": the other one after growing the model")
        ok(v.model.npchain == 3, what + ": grown")
    v, o = (c, p) if case["side"] else (p, c)
    v.weights = numpy.ones(6) * 2
    if case["t"] not in ("ClassicDyn", "Evidence", "Salesman"):
        v.ydata = A(v.ydata) + 1
    d1 = psnap(o, P)
    diff(d0, d1, what + ": the other one after replacing weights and data")
    return case["t"]


X = x1(lo=-2, hi=2, lo_n=2, hi_n=4)
ex = lambda: expr1(maxlen=3, depth=2)
subs = [Sub("copy-" + n, barecase(s), runbare, quick=25) for n, s in S.items() if s.copyable]
subs += [
    Sub("copy-compound", merge(st.fixed_dictionaries(dict(e=ex(), x=X, how=st.integers(0, 2)))), runexpr, quick=250),
    Sub("isolate", merge(st.fixed_dictionaries(dict(e=ex(), x=X, how=st.integers(0, 2), k=st.integers(0, 5)))), runisolate, quick=250),
    Sub("copy-replaced", merge(st.sampled_from(["Gauss", "Polynomial", "Sine", "Arctan", "PseudoVoigt", "Splines"]).flatmap(
        lambda n: st.tuples(S[n].case(), st.fixed_dictionaries(dict(
            r=st.one_of(leaf(["Polynomial", "Gauss", "Constant", "Sine"]), expr1(maxlen=2, depth=0, ops="+*", fixed=False,
                                                                               leaves=["Polynomial", "Sine", "Gauss"])),
            k=st.integers(0, 5)))).map(lambda t: dict(t[0], **t[1])))), runfix, quick=200),
    Sub("operands", merge(st.fixed_dictionaries(dict(e=st.one_of(leaf(LEAF1), ex()), b=st.one_of(leaf(PIPE1), expr1(maxlen=2, depth=1, leaves=PIPE1)), x=X,
                                                     op=st.sampled_from(list(OPF))))), runop, quick=250),
    Sub("containers", merge(st.fixed_dictionaries(dict(h=st.sampled_from(list(HEADS)), t=st.sampled_from(list(HEADS)), c=st.integers(0, 5), c2=st.integers(0, 5),
                                                       op=st.sampled_from(["+", "*", "-", "-none-"]), x=X))), runhead, quick=200),
    Sub("dynamic", st.fixed_dictionaries(dict(m=st.sampled_from(list(DYN)), x=X, seed=st.integers(0, 10 ** 6), hist=st.lists(
        st.tuples(st.sampled_from(["copy", "grow", "shrink", "vary", "pars", "copy"]), st.booleans()).map(list), min_size=2, max_size=8))),
        rundyn, quick=250),
    Sub("priors", st.fixed_dictionaries(dict(p=priorcase(), side=st.booleans(), acts=st.lists(st.fixed_dictionaries(dict(
        a=st.sampled_from(["lim", "scale", "unset", "eval"]), v=fl(0.1, 2), w=fl(0.1, 3))), min_size=1, max_size=3))), runprior, quick=300),
    Sub("errdis", errcase(), runerr, quick=250),
    Sub("problems", st.fixed_dictionaries(dict(t=st.sampled_from(PROB), w=st.booleans(), acc=st.integers(0, 2), seed=st.integers(0, 999),
                                               side=st.booleans())), runprob, quick=200),
]

if __name__ == "__main__":
    sys.exit(main("C06", subs, RULE))
