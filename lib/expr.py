"""Model expressions: generator, builder (real code) and reference evaluator."""
from catalog import *
from pbt import Skip
from priors import mkprior

OPS = ["+", "-", "*", "/", "|"]
LEAF1 = ["Polynomial", "Gauss", "Lorentz", "Exp", "Sine", "SinePhase", "Arctan", "Logistic", "Constant", "SineAmp",
         "Harmonic", "PseudoVoigt", "Power1", "Etalon", "Kernel", "Voigt", "Splines", "User", "Chebyshev"]
PIPE1 = ["Polynomial", "Gauss", "Lorentz", "Sine", "SinePhase", "Arctan", "Logistic", "SineAmp", "Harmonic", "Etalon"]
DIV1 = ["Gauss", "Lorentz", "Exp", "Constant", "Logistic", "Polynomial"]
LEAF2 = ["PolySurface", "Kernel2dG", "Product", "PolySineAmp", "EtalonDrift", "SoftMax21"]


def leafcase(name):
    """strategy for a leaf {m,cfg,p}"""
    if name == "Power1":
        return st.tuples(fls(-3, 3, 1)).map(lambda t: dict(m="Power", cfg=dict(e=2.0), p=t[0]))
    if name == "Kernel2dG":
        return S["Kernel2d"].pars(dict(k="Gauss", s=2)).map(lambda p: dict(m="Kernel2d", cfg=dict(k="Gauss", s=2), p=p))
    if name == "SoftMax21":
        c = dict(ndim=2, ndout=1, offset=True, normed=True)
        return S["SoftMax"].pars(c).map(lambda p: dict(m="SoftMax", cfg=c, p=p))
    if name == "Kernel":
        c = dict(k="Lorentz")
        return S["Kernel"].pars(c).map(lambda p: dict(m="Kernel", cfg=c, p=p))
    s = S[name]
    cfg = s.cfg
    if name in ("Polynomial", "Chebyshev"):
        cfg = st.integers(0, 2).map(lambda n: dict(n=n))
    if name == "Harmonic":
        cfg = st.just(dict(n=1, period=2.0))
    if name == "Splines":
        cfg = st.just(dict(knots=[-3.0, 0.0, 3.0], order=3))
    if name == "PolySurface":
        cfg = st.integers(0, 1).map(lambda n: dict(n=n))
    return cfg.flatmap(lambda c: s.pars(c).map(lambda p: dict(m=name, cfg=c, p=p)))


def leaf(names):
    return st.sampled_from(names).flatmap(leafcase)


def maybe_fixed(lf):
    """some leaves get constant fixed parameters: fix = list of indices"""
    def ff(case):
        s = S[case["m"]]
        if not s.fixable or len(case["p"]) < 2:
            return st.just(case)
        n = len(case["p"])
        return st.one_of(st.just([]), st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n - 1)).map(
            lambda fx: dict(case, fix=sorted(fx)) if fx else case)
    return lf.flatmap(ff)


def expr1(maxlen=4, depth=2, ops="+-*/|", fixed=True, leaves=None, nconst=True):
    """1-d input, 1-d output expression: list [operand, [op, operand], ...]"""
    lv = list(leaves or LEAF1)

    def operand(names, d, allow=True):
        lf = leaf([n for n in names if n in lv] or ["Gauss"])
        if fixed:
            lf = maybe_fixed(lf)
        if d <= 0 or not allow:
            return lf
        return st.one_of(lf, lf, ex(d - 1, 3, 2))

    def rest(d):
        alts = []
        for o in ops:
            if o == "|":
                alts.append(st.tuples(st.just("|"), operand(PIPE1, d)))
            elif o == "/":
                alts.append(st.tuples(st.just("/"), operand(DIV1, d, allow=True)))
            else:
                alts.append(st.tuples(st.just(o), operand(LEAF1, d)))
        return st.one_of(*alts).map(list)

    def ex(d, n, lo=1):
        return st.tuples(operand(LEAF1, 0), st.lists(rest(d), min_size=lo - 1, max_size=n - 1)).map(
            lambda t: [t[0]] + t[1])
    return ex(depth, maxlen, 2)


def expr2(maxlen=4, depth=1, ops="+-*/|"):
    """2-d input, single output"""
    def operand(d):
        lf = leaf(LEAF2)
        return lf if d <= 0 else st.one_of(lf, lf, ex(d - 1, 3, 2))

    def rest(d):
        alts = [st.tuples(st.just(o), operand(d)) for o in ops if o in "+-*"]
        if "/" in ops:
            alts.append(st.tuples(st.just("/"), leaf(["Kernel2dG", "EtalonDrift", "SoftMax21"])))
        if "|" in ops:
            alts.append(st.tuples(st.just("|"), leaf(PIPE1)))
        return st.one_of(*alts).map(list)

    def ex(d, n, lo=1):
        return st.tuples(leaf(LEAF2), st.lists(rest(d), min_size=lo - 1, max_size=n - 1)).map(lambda t: [t[0]] + t[1])
    return ex(depth, maxlen, 2)


def is_leaf(e):
    return isinstance(e, dict)


def fixdict(lf):
    return {k: lf["p"][k] for k in lf["fix"]} if lf.get("fix") else None


def build_leaf(lf):
    fx = fixdict(lf)
    m = S[lf["m"]].make(lf["cfg"], fixed=fx) if fx else S[lf["m"]].make(lf["cfg"])
    return m


def freepars(lf):
    fx = lf.get("fix") or []
    return [v for k, v in enumerate(lf["p"]) if k not in fx]


def build(e, how=0):
    """how: 0 binary operators, 1 in-place methods on the first, 2 in-place operators"""
    if is_leaf(e):
        m = build_leaf(e)
        m.parameters = A(freepars(e)) if len(freepars(e)) else m.parameters
        for k, pc in enumerate(e.get("pri", ())):
            if k < m.npchain:
                m.setPrior(k, prior=mkprior(pc))
        return m
    m = build(e[0], how)
    for o, b in e[1:]:
        mb = build(b, how)
        if how == 0:
            m = {"+": lambda: m + mb, "-": lambda: m - mb, "*": lambda: m * mb, "/": lambda: m / mb, "|": lambda: m | mb}[o]()
        elif how == 1:
            {"+": m.addModel, "-": m.subtractModel, "*": m.multiplyModel, "/": m.divideModel, "|": m.pipeModel}[o](mb)
        else:
            if o == "+": m += mb
            elif o == "-": m -= mb
            elif o == "*": m *= mb
            elif o == "/": m /= mb
            else: m |= mb
    return m


def pars(e):
    if is_leaf(e):
        return freepars(e)
    return sum([pars(e[0])] + [pars(b) for _, b in e[1:]], [])


def leaves(e):
    if is_leaf(e):
        return [e]
    return sum([leaves(e[0])] + [leaves(b) for _, b in e[1:]], [])


def evalref(e, x, p, log=None):
    """reference: own evaluation, with closed forms where known. p: list consumed in order (iterator)"""
    if is_leaf(e):
        s = S[e["m"]]
        full = list(e["p"])
        fx = e.get("fix") or []
        for k in range(len(full)):
            if k not in fx:
                full[k] = next(p)
        if s.ref is not None:
            return s.ref(e["cfg"], x, A(full))
        return s.make(e["cfg"]).result(x, A(full))
    r = evalref(e[0], x, p, log)
    for o, b in e[1:]:
        if o == "|":
            if log is not None:
                log.append(("|", r))
            r = evalref(b, r, p, log)
            continue
        q = evalref(b, x, p, log)
        if o == "+": r = r + q
        elif o == "-": r = r - q
        elif o == "*": r = r * q
        else:
            if log is not None:
                log.append(("/", q))
            r = r / q
    return r


def ref(e, x, p=None, guard=True):
    log = []
    with numpy.errstate(all="ignore"):
        r = evalref(e, x, iter(pars(e) if p is None else list(p)), log)
    if guard:
        for o, v in log:
            if not numpy.all(numpy.isfinite(v)):
                raise Skip("not finite")
            if o == "/" and numpy.min(numpy.abs(v)) < 1e-2:
                raise Skip("division by nearly zero")
            if o == "|" and numpy.max(numpy.abs(v)) > 30:
                raise Skip("pipe input out of range")
        if not numpy.all(numpy.isfinite(r)) or numpy.max(numpy.abs(r)) > 1e6:
            raise Skip("result out of range")
    return r


def kinky(e):
    return any(l["m"] == "Splines" for l in leaves(e))


def nops(e):
    return 0 if is_leaf(e) else sum(1 for _ in e[1:]) + nops(e[0]) + sum(nops(b) for _, b in e[1:])


def hasop(e, o):
    if is_leaf(e):
        return False
    return hasop(e[0], o) or any(oo == o or hasop(b, o) for oo, b in e[1:])


def nested(e):
    return not is_leaf(e) and any(not is_leaf(b) for _, b in e[1:])


def show(e):
    if is_leaf(e):
        return e["m"] + ("~" if e.get("fix") else "")
    return show(e[0]) + "".join(" %s %s" % (o, show(b) if is_leaf(b) else "{" + show(b) + "}") for o, b in e[1:])


def stencil(f, h):
    """4th order central difference of f at 0"""
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def richardson(f, h):
    """derivative of f at 0 and an estimate of its error"""
    a, b = stencil(f, h), stencil(f, h / 2)
    return b, numpy.abs(a - b)


def numgrad(f, p, h=4e-4):
    """derivatives of f(p) to every p, with error estimates: list of (value, error)"""
    out = []
    for k in range(len(p)):
        hk = h * max(1.0, abs(p[k]) * 0.3)

        def g(d):
            q = A(p).copy()
            q[k] += d
            return A(f(q))
        out.append(richardson(g, hk))
    return out


def compare(got, exp, scale, rtol, what, err=0.0):
    from pbt import ok, fail
    got = A(got)
    ok(got.shape == exp.shape, "%s: shape %s, expected %s" % (what, got.shape, exp.shape))
    tol = rtol * (scale + numpy.abs(exp)) + 5 * err
    bad = ~(numpy.abs(got - exp) <= tol)
    if bad.any():
        fail("%s: got %s, expected %s" % (what, got.tolist(), exp.tolist()))
