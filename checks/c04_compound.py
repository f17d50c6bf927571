from expr import *
from pbt import *

RULE = ("Random model expressions (up to 5 operands per level, 3 levels of brackets, all operators, three ways of writing "
        "them), evaluated by an independent left-to-right interpreter over the closed forms of the leaves; plus the "
        "bookkeeping of the chain. Non-trivial: at least two operands and a finite, non-constant result or more than one point.")


def close(got, exp, what, tol=1e-9):
    got, exp = A(got), A(exp)
    ok(got.shape == exp.shape, "%s: shape %s, expected %s" % (what, got.shape, exp.shape))
    sc = 1 + numpy.max(numpy.abs(exp)) if exp.size else 1
    ok(numpy.all(numpy.abs(got - exp) <= tol * sc), "%s: got %s, expected %s" % (what, got.tolist(), exp.tolist()))


def cond(e, x, r):
    """crude conditioning: skip when the reference itself jumps"""
    with numpy.errstate(all="ignore"):
        r2 = ref(e, x, [v * (1 + 1e-13) for v in pars(e)], guard=False)
    return numpy.max(numpy.abs(r2 - r)) if r.size else 0.0


def run(case):
    e, x, how = case["e"], A(case["x"]), case["how"]
    p = A(pars(e))
    r = ref(e, x)
    if r.ndim == 2 and r.shape[1] == 1:
        r = r[:, 0]
    tol = 1e-9 + 1e3 * cond(e, x, r) / (1 + numpy.max(numpy.abs(r)))
    x0 = x.copy()
    if how == 0:
        # binary operators may not touch their operands
        m = build(e[0])
        for o, b in e[1:]:
            mb = build(b)
            pa, pb, sa, sb = m.parameters.copy(), mb.parameters.copy(), str(m), str(mb)
            na, nb = m.npchain, mb.npchain
            mm = {"+": lambda: m + mb, "-": lambda: m - mb, "*": lambda: m * mb, "/": lambda: m / mb, "|": lambda: m | mb}[o]()
            for q in range(mm.npchain):
                mm.parameters[q] += 1.0
            ok(numpy.array_equal(m.parameters, pa) and numpy.array_equal(mb.parameters, pb) and
               str(m) == sa and str(mb) == sb and (m.npchain, mb.npchain) == (na, nb),
               "operator %s changed one of its operands" % o)
            for q in range(mm.npchain):
                mm.parameters[q] -= 1.0
            mm.parameters = numpy.append(pa, pb)
            m = mm
    else:
        m = build(e, how)
    n = len(p)
    ok(m.npchain == n and m.npars == n and m.getNumberOfParameters() == n and len(m.parameters) == n,
       "%s has %d/%d/%d parameters, expected %d" % (show(e), m.npchain, m.npars, len(m.parameters), n))
    ok(numpy.array_equal(m.parameters, p), "%s: parameters %s, expected %s" % (show(e), m.parameters, p))
    close(m.result(x, p), r, show(e) + " result", tol)
    close(m(x), r, show(e) + " call", tol)
    close(m.result(x, p), r, show(e) + " second result", tol)
    ok(numpy.array_equal(x, x0), "input changed")
    q = p + 0.01 * numpy.arange(1, n + 1)
    try:
        rq = ref(e, x, q)
        if rq.ndim == 2 and rq.shape[1] == 1:
            rq = rq[:, 0]
        tq = 1e-9 + 1e4 * cond(e, x, r) / (1 + numpy.max(numpy.abs(rq)))
        close(m.result(x, q), rq, show(e) + " result at other parameters", tq)
        ok(numpy.array_equal(m.parameters, p), "result changed the parameters of the model")
    except Skip:
        pass
    ok(m.chainLength() == len(e), "%s: chain length %d, expected %d" % (show(e), m.chainLength(), len(e)))
    names = []
    for lf in leaves(e):
        a = build_leaf(lf)
        names += [a.getParameterName(k) for k in range(a.npchain)]
    got = [m.getParameterName(k) for k in range(n)]
    ok(got == names, "%s: parameter names %s, expected %s" % (show(e), got, names))
    for bad in (n, n + 3):
        try:
            m.getParameterName(bad)
        except IndexError:
            pass
        else:
            fail("%s: name of parameter %d of %d exists" % (show(e), bad, n))
    # split up again
    at = 0
    for k, op in enumerate([e[0]] + [b for _, b in e[1:]]):
        iso = m.isolateModel(k)
        pk = p[at:at + len(pars(op))]
        at += len(pk)
        ok(numpy.array_equal(iso.parameters, pk), "%s: part %d has parameters %s, expected %s" % (show(e), k, iso.parameters, pk))
        ok(iso.npchain == len(pk), "%s: part %d has %d parameters" % (show(e), k, iso.npchain))
        if S[leaves(op)[0]["m"]].ndim(leaves(op)[0]["cfg"]) == x.ndim:
            try:
                rk = ref(op, x)
            except Skip:
                continue
            if rk.ndim == 2 and rk.shape[1] == 1:
                rk = rk[:, 0]
            close(iso(x), rk, "%s: part %d" % (show(e), k), 1e-9 + 1e3 * cond(op, x, rk))
    try:
        m.isolateModel(len(e))
    except IndexError:
        pass
    else:
        fail("part %d of %d exists" % (len(e), len(e)))
    for bad in (n + 1, n - 1):
        if bad >= 0:
            try:
                m.parameters = numpy.zeros(bad)
            except ValueError:
                continue
            fail("%d parameters accepted for a model with %d" % (bad, n))
    ok(numpy.array_equal(m.parameters, p), "parameters changed by a refused assignment")
    lab = "nested" if nested(e) else "pipe" if hasop(e, "|") else "flat"
    return lab if len(x) else None


def rundim(case):
    """incompatible dimensions are refused and leave the model as it was"""
    m1, m2 = S[case["a"]["m"]].make(case["a"]["cfg"]), S[case["b"]["m"]].make(case["b"]["cfg"])
    d1 = m1.ndim
    n1 = m1.npchain
    # same input dimension for + - * /, matching output/input for |
    good = (m1.ndout == m2.ndim) if case["op"] == "|" else d1 == m2.ndim
    f = {"+": m1.addModel, "-": m1.subtractModel, "*": m1.multiplyModel, "/": m1.divideModel, "|": m1.pipeModel}[case["op"]]
    n2 = m2.npchain
    try:
        f(m2)
        done = True
    except ValueError:
        done = False
    ok(done == good, "%d-d %s %d-d was %s" % (d1, case["op"], m2.ndim, "accepted" if done else "refused"))
    ok(m1.npchain == len(m1.parameters) == n1 + (n2 if good else 0), "%d parameters" % m1.npchain)
    ok(m1.chainLength() == (2 if good else 1), "chain length %d" % m1.chainLength())
    return "accepted" if good else "refused"


HOW = st.integers(0, 2)
E1 = expr1(maxlen=5, depth=2)


def sub(name, e, xs, q):
    return Sub(name, st.fixed_dictionaries(dict(e=e, x=xs, how=HOW)), run, quick=q)


ANY = leaf(LEAF1 + LEAF2)
subs = [sub("expr1", expr1(maxlen=5, depth=1), x1(-2, 2), 400),
        sub("expr1-deep", expr1(maxlen=3, depth=3), x1(-2, 2), 400),
        sub("expr1-nopipe", expr1(maxlen=6, depth=1, ops="+-*/"), x1(-2, 2), 300),
        sub("expr1-nofix", expr1(maxlen=3, depth=2, fixed=False), x1(-2, 2), 300),
        sub("expr1-pipe", expr1(maxlen=4, depth=2, ops="|+"), x1(-2, 2), 300),
        sub("expr2", expr2(maxlen=4, depth=2), x2(-1.5, 1.5), 300),
        Sub("dims", st.fixed_dictionaries(dict(a=ANY, b=ANY, op=st.sampled_from(list("+-*/|")))), rundim, quick=300)]

if __name__ == "__main__":
    sys.exit(main("C04", subs, RULE))
