from priors import *
from expr import *
from pbt import *

RULE = ("Random compounds of (fixed, bracketed, repeated, combined, dynamic) models; parts get priors or limits for some or all of their "
        "parameters before they are combined, the compound gets more afterwards. A list of (prior of each parameter) kept by the check is the "
        "reference for getPrior, getLimits, hasPriors, hasLimits and for the mappings between unit space and domain. "
        "Non-trivial: at least two parameters with different priors.")


def lims(p):
    return num(p.lowLimit), num(p.highLimit)


def own(m, pri, np_):
    """reference: the priors of np_ parameters of one part of which the first len(pri) were set; None where there are none"""
    pri = pri[:np_]
    if not pri:
        return [None] * np_
    return [pri[min(k, len(pri) - 1)] for k in range(np_)]


def mk(d):
    """fresh prior from the description used in the case; ('lim', lo, hi) are limits on the default prior"""
    if d is None:
        return None
    if isinstance(d, (list, tuple)) and d[0] == "lim":
        return bf.UniformPrior(limits=[d[1], d[2]])
    return mkprior(d)


def checkpriors(m, exp, us, what, problem=True):
    """exp : list of prior descriptions (or None) per parameter"""
    n = len(exp)
    ok(m.npchain == n, "%s: %d parameters, expected %d" % (what, m.npchain, n))
    ref_ = [mk(d) for d in exp]
    for k in range(n):
        if ref_[k] is None:
            try:
                p = m.getPrior(k)
            except IndexError:
                continue
            fail("%s: parameter %d has a prior (%s), though none was set" % (what, k, p))
        p = m.getPrior(k)
        ok(pdesc(p) == pdesc(ref_[k]), "%s: prior of parameter %d is %s, expected %s" % (what, k, pdesc(p), pdesc(ref_[k])))
    for k in (n, n + 1):
        try:
            m.getPrior(k)
            ok(False, "%s: getPrior(%d) of a model with %d parameters does not fail" % (what, k, n))
        except IndexError:
            pass
    full = all(r is not None for r in ref_)
    ok(bool(m.hasPriors(isBound=False)) == full, "%s: hasPriors(isBound=False) is %s" % (what, m.hasPriors(isBound=False)))
    if not full:
        ok(not m.hasPriors(), "%s: hasPriors() without priors on all parameters" % what)
        ok(not m.hasLimits(), "%s: hasLimits() without priors on all parameters" % what)
        return
    ok(bool(m.hasLimits()) == all(r.hasLimits() for r in ref_), "%s: hasLimits() is %s" % (what, m.hasLimits()))
    ok(not problem or bool(m.hasPriors()) == all(r.isBound() for r in ref_), "%s: hasPriors() is %s" % (what, m.hasPriors()))
    for k in range(n):
        ok(bool(m.hasLimits(fitindex=numpy.array([k]))) == bool(ref_[k].hasLimits()), "%s: hasLimits of parameter %d" % (what, k))
    lo, hi = m.getLimits()
    for k in range(n):
        ok((num(lo[k]), num(hi[k])) == lims(ref_[k]), "%s: limits of parameter %d are (%s,%s), expected %s" % (what, k, lo[k], hi[k], lims(ref_[k])))
    if not all(r.isBound() for r in ref_):
        return
    u = A([us[k % len(us)] for k in range(n)])
    d = A([r.unit2Domain(v) for r, v in zip(ref_, u)])
    got = m.unit2Domain(u)
    ok(numpy.shape(got) == (n,) and numpy.allclose(got, d, rtol=1e-12, atol=1e-12), "%s: unit2Domain(%s) is %s, expected %s" % (what, u, got, d))
    uu = A([r.domain2Unit(v) for r, v in zip(ref_, d)])
    got = m.domain2Unit(d)
    ok(numpy.shape(got) == (n,) and numpy.allclose(got, uu, rtol=1e-12, atol=1e-12), "%s: domain2Unit(%s) is %s, expected %s" % (what, d, got, uu))
    try:
        pd = A([r.partialDomain2Unit(v) for r, v in zip(ref_, d)])
    except AttributeError:
        pd = None
    if pd is not None:
        ok(numpy.allclose(m.partialDomain2Unit(d), pd, rtol=1e-12), "%s: partialDomain2Unit" % what)
    prob = bf.ClassicProblem(m, numpy.zeros((2, m.ndim)) if m.ndim > 1 else numpy.zeros(2), numpy.zeros(2))
    for k in range(n):
        for o in (m, prob) if problem else (m,):
            v = o.unit2Domain(u[k], k)
            ok(abs(v - d[k]) <= 1e-12 * (1 + abs(d[k])), "%s: unit2Domain(%g,%d) of %s is %g, expected %g" % (what, u[k], k, type(o).__name__, v, d[k]))
            v = o.domain2Unit(d[k], k)
            ok(abs(v - uu[k]) <= 1e-12, "%s: domain2Unit(%g,%d) of %s is %g, expected %g" % (what, d[k], k, type(o).__name__, v, uu[k]))
    part = [k for k in range(n) if k % 2 == 0]
    v = m.unit2Domain(u[:len(part)])
    ok(numpy.allclose(v, d[:len(part)]), "%s: unit2Domain of the first %d" % (what, len(part)))


def later(m, exp, case, what, has):
    """settings on the compound"""
    n = len(exp)
    for a in case["later"]:
        if n == 0:
            break
        t = a["a"]
        if t == "prior":
            k = a["k"] % n
            if exp[k] is None or has is not None and not has(k):
                continue            # would need all previous ones of that part
            m.setPrior(k, prior=mkprior(a["p"]))
            exp = has.set(exp, k, a["p"]) if has is not None else exp[:k] + [a["p"]] + exp[k + 1:]
    return exp


# reference state of a compound: a list of parts, each with its number of parameters and the list of priors set
class Ref:
    def __init__(self, parts):
        self.parts = [[n, list(p)[:n]] for n, p in parts]

    def find(self, k):
        for q in self.parts:
            if k < q[0]:
                return q, k
            k -= q[0]
        raise IndexError

    def settable(self, k):
        q, i = self.find(k)
        return i <= len(q[1])

    def set(self, k, d):
        q, i = self.find(k)
        if i == len(q[1]):
            q[1].append(d)
        else:
            q[1][i] = d

    def all(self):
        return sum([own(None, p, n) for n, p in self.parts], [])


def apply(m, R, acts, what):
    n = m.npchain
    for a in acts:
        if n == 0:
            return
        k = a.get("k", 0) % n
        t = a["a"]
        if t in ("prior", "limits"):
            if not R.settable(k):
                try:
                    if t == "prior":
                        m.setPrior(k, prior=mkprior(a["p"]))
                    else:
                        m.setPrior(k, limits=[a["v"], a["v"] + a["w"]])
                    fail("%s: a prior is set for parameter %d, though the one before has none" % (what, k))
                except IndexError:
                    continue
            if t == "prior":
                m.setPrior(k, prior=mkprior(a["p"]))
                R.set(k, a["p"])
            else:
                q, i = R.find(k)
                old = q[1][min(i, len(q[1]) - 1)] if q[1] else None
                if old is not None and not (isinstance(old, list) or old["t"] in ("Uniform", "UniformNone", "Free")):
                    continue
                m.setPrior(k, limits=[a["v"], a["v"] + a["w"]])
                R.set(k, ["lim", a["v"], a["v"] + a["w"]])
        elif t == "setlimits":
            # on all parameters (or the first part of them); only when all are uniform or absent
            L = 1 + a["k"] % n
            if any(d is not None and not (isinstance(d, list) or d["t"] in ("Uniform", "UniformNone", "Free")) for d in R.all()):
                continue
            if not all(R.settable(j) or _willbe(R, j, L) for j in range(L)):
                continue
            lo = [round(a["v"] + 0.1 * j, 3) for j in range(L)]
            hi = [round(a["v"] + a["w"] + 0.2 * j, 3) for j in range(L)]
            kind = a["how"]
            if kind == "both":
                m.setLimits(lo, hi)
            elif kind == "low":
                m.setLimits(lowLimits=lo)
            else:
                m.setLimits(highLimits=hi)
            for j in range(L):
                R.set(j, ["lim", None if kind == "high" else lo[j], None if kind == "low" else hi[j]])
        elif t == "scalar":
            if any(d is not None and not (isinstance(d, list) or d["t"] in ("Uniform", "UniformNone", "Free")) for d in R.all()):
                continue
            if not R.settable(0):
                continue
            m.setLimits(a["v"], a["v"] + a["w"])
            R.set(0, ["lim", a["v"], a["v"] + a["w"]])


def _willbe(R, j, L):
    q, i = R.find(j)
    return True         # setLimits goes through the parameters in order from 0


def acts(nmax=3):
    k = st.integers(0, 20)
    return st.lists(st.one_of(
        st.fixed_dictionaries(dict(a=st.just("prior"), k=k, p=priorcase())),
        st.fixed_dictionaries(dict(a=st.just("limits"), k=k, v=fl(-2, 2), w=fl(0.1, 3))),
        st.fixed_dictionaries(dict(a=st.just("setlimits"), k=k, v=fl(-2, 2), w=fl(0.1, 3), how=st.sampled_from(["both", "both", "low", "high"]))),
        st.fixed_dictionaries(dict(a=st.just("scalar"), v=fl(-2, 2), w=fl(0.1, 3)))), max_size=nmax)


US = st.lists(fl(0.02, 0.98), min_size=3, max_size=6)


def label(exp):
    s = set(str(d) for d in exp)
    return "%d priors" % min(len(s), 6) if len(s) > 1 else None


def partsof(e):
    return [(len(freepars(l)), l.get("pri", [])) for l in leaves(e)]


def withpri(e, pris):
    it = iter(pris)

    def go(q):
        if is_leaf(q):
            return dict(q, pri=next(it, []))
        return [go(q[0])] + [[o, go(b)] for o, b in q[1:]]
    return go(e)


def exprcase():
    pri = st.one_of(st.just([]), st.lists(priorcase(), min_size=1, max_size=4), st.lists(priorcase(), min_size=1, max_size=4))
    ex = st.one_of(expr1(maxlen=3, depth=2), leaf(LEAF1).map(lambda l: [l]), expr1(maxlen=3, depth=1))
    return st.fixed_dictionaries(dict(e=st.tuples(ex, st.lists(pri, min_size=9, max_size=9)).map(lambda t: withpri(t[0], t[1])),
                                      how=st.integers(0, 2), acts=acts(), us=US, copy=st.booleans()))


def runexpr(case):
    e = case["e"]
    m = build(e, case["how"])
    R = Ref(partsof(e))
    what = show(e)
    checkpriors(m, R.all(), case["us"], what)
    if case["copy"]:
        m = m.copy()
    apply(m, R, case["acts"], what)
    checkpriors(m, R.all(), case["us"], what + " after " + str([a["a"] for a in case["acts"]]))
    # parts
    at = 0
    for i in range(m.chainLength()):
        q = m.isolateModel(i)
        ex = R.all()[at:at + q.npchain]
        checkpriors(q, ex, case["us"], "%s, part %d" % (what, i))
        at += q.npchain
    return label(R.all())


# ---------------------------------------------------------------- containers
def runbracket(case):
    inner = build(case["e"], 0)
    m = bf.BracketModel(inner)
    R = Ref(partsof(case["e"]) + (partsof(case["t"]) if case["tail"] else []))
    if case["tail"]:
        m = m + build(case["t"], 0)
        if case["copy"]:
            m = m.copy()
    apply(m, R, case["acts"], "bracket")
    checkpriors(m, R.all(), case["us"], "BracketModel of %s%s" % (show(case["e"]), " + " + show(case["t"]) if case["tail"] else ""))
    return label(R.all())


def runrepeat(case):
    inner = build(case["e"], 0)
    np_ = inner.npchain
    if np_ == 0:
        raise Skip("no parameters")
    same = sorted(set(s % np_ for s in case["same"]))
    if len(same) == np_:
        same = same[:-1]
    Ri = Ref(partsof(case["e"]))
    m = bf.RepeatingModel(case["n"], inner, same=same or None)
    idx = list(range(np_))
    for _ in range(case["n"] - 1):
        idx += [k for k in range(np_) if k not in same]
    nb = len(idx)
    R2 = Ref(partsof(case["t"]) if case["tail"] else [])
    if case["tail"]:
        m = m + build(case["t"], 0)
    if case["copy"]:
        m = m.copy()
    # set on the repeated ones
    for a in case["acts"]:
        if a["a"] != "prior":
            continue
        k = a["k"] % np_
        if not Ri.settable(k):
            continue
        m.setPrior(k, prior=mkprior(a["p"]))
        Ri.set(k, a["p"])
    what = "%d times (%s) same %s%s" % (case["n"], show(case["e"]), same, " + " + show(case["t"]) if case["tail"] else "")
    exp = [Ri.all()[k] for k in idx] + R2.all()
    checkpriors(m, exp, case["us"], what)
    if case["grow"] and m.ndim == 1 and all(d is not None for d in exp):
        d = len(idx)
        m.grow(0)
        idx2 = idx + [k for k in range(np_) if k not in same]
        checkpriors(m, [Ri.all()[k] for k in idx2] + R2.all(), case["us"], what + " grown", problem=False)
    return label(exp)


def runcombi(case):
    inner = build(case["e"], 0)
    np_ = inner.npchain
    if np_ == 0:
        raise Skip("no parameters")
    n = case["n"]
    add = {case["ka"] % np_: [0.5 * i for i in range(n)]} if case["add"] else None
    mul = {case["km"] % np_: [1.0 + i for i in range(n)]} if case["mul"] else None
    if add and mul and set(add) == set(mul):
        mul = None
    m = bf.CombiModel(inner, n, addCombi=add, mulCombi=mul)
    dep = set(add or ()) | set(mul or ())
    idx = [(j, k) for j in range(n) for k in range(np_) if j == 0 or k not in dep]
    Ri = Ref(partsof(case["e"]))
    base = Ri.all()
    cur = [base[k] for j, k in idx]
    R2 = Ref(partsof(case["t"]) if case["tail"] else [])
    if case["tail"]:
        m = m + build(case["t"], 0)
    if case["copy"]:
        m = m.copy()
    what = "CombiModel of %d times (%s) add %s mul %s" % (n, show(case["e"]), add, mul)
    checkpriors(m, cur + R2.all(), case["us"], what)
    if all(b is not None for b in base):
        for a in case["acts"]:
            if a["a"] != "prior":
                continue
            k = a["k"] % len(cur)
            m.setPrior(k, prior=mkprior(a["p"]))
            cur[k] = a["p"]
        checkpriors(m, cur + R2.all(), case["us"], what + " after setting priors")
    elif all(b is None for b in base):
        # priors on all or on the first np_ of them: equivalent ones share
        L = len(cur) if case["add"] else np_
        lo = [float(j) for j in range(L)]
        m.setLimits(lo, [v + 2 for v in lo])
        d = [["lim", v, v + 2] for v in lo]
        cur = d if L == len(cur) else [d[k] for j, k in idx]
        checkpriors(m, cur + R2.all(), case["us"], what + " after setting limits")
    return label(cur + R2.all())


def contcase(**kw):
    pri = st.one_of(st.just([]), st.lists(priorcase(), min_size=1, max_size=4))
    ex = st.one_of(leaf(["Gauss", "Polynomial", "Sine", "Lorentz"]).map(lambda l: [l]), expr1(maxlen=2, depth=1, leaves=["Gauss", "Polynomial", "Sine", "Lorentz"]))
    tl = leaf(["Gauss", "Polynomial"]).map(lambda l: [l])
    e = st.tuples(ex, st.lists(pri, min_size=9, max_size=9)).map(lambda t: withpri(t[0], t[1]))
    t = st.tuples(tl, st.lists(pri, min_size=9, max_size=9)).map(lambda t: withpri(t[0], t[1]))
    return st.fixed_dictionaries(dict(dict(e=e, t=t, tail=st.booleans(), copy=st.booleans(), acts=acts(4), us=US), **kw))


# ---------------------------------------------------------------- dynamic models with a repeating set of priors
def rundyn(case):
    t, n = case["t"], case["n"]
    pris = case["pri"]
    if t == "harm":
        m, per = bf.HarmonicDynamicModel(n), 2
        pris = pris[:2]
    elif t == "poly":
        m, per = bf.PolynomialDynamicModel(n), None
    else:
        m, per = bf.FootballModel(n + 2, complexity=case["c"]), case["c"]
        pris = pris[:per]
    for k, p in enumerate(pris):
        if k < m.npbase:
            m.setPrior(k, prior=mkprior(p))
    pris = pris[:m.npbase]
    tail = bf.PolynomialModel(1)
    tail.setLimits([7.0, 8.0], [9.0, 11.0])
    if t != "foot" and case["tail"]:
        m = m + tail
    nb = m.npbase

    def expect(nb):
        ex = [pris[min(k % per if per else k, len(pris) - 1)] for k in range(nb)] if pris else [None] * nb
        return ex + ([["lim", 7.0, 9.0], ["lim", 8.0, 11.0]] if t != "foot" and case["tail"] else [])
    if case["copy"]:
        m = m.copy()
    what = "%s %d" % (t, n)
    checkpriors(m, expect(nb), case["us"], what, problem=t != "foot")
    if t != "foot" and pris:
        for g in case["grow"]:
            if g:
                m.grow(0)
            else:
                m.shrink(0)
        checkpriors(m, expect(m.npbase), case["us"], what + " after growing", problem=False)
    return label(expect(m.npbase))


subs = [
    Sub("compound", exprcase(), runexpr, quick=500),
    Sub("bracket", contcase(), runbracket, quick=200),
    Sub("repeat", contcase(n=st.integers(1, 4), same=st.lists(st.integers(0, 5), max_size=2), grow=st.booleans()), runrepeat, quick=250),
    Sub("combi", contcase(n=st.integers(1, 4), ka=st.integers(0, 5), km=st.integers(0, 5), add=st.booleans(), mul=st.booleans()), runcombi, quick=250),
    Sub("dynamic", st.fixed_dictionaries(dict(t=st.sampled_from(["harm", "poly", "foot"]), n=st.integers(1, 4), c=st.integers(1, 3),
                                              pri=st.lists(priorcase(), max_size=4), tail=st.booleans(), copy=st.booleans(), us=US,
                                              grow=st.lists(st.booleans(), max_size=4))), rundyn, quick=200),
]

if __name__ == "__main__":
    sys.exit(main("C07", subs, RULE))
