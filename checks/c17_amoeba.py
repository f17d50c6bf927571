import sys
from env import *
from catalog import *
from pbt import *

RULE = ("Random functions (convex quadratic forms, valleys, steep walls, many minima, flat steps) of 1 to 5 variables, random start, simplex size (scalar, per variable), "
        "limits (none, one pair, per variable, one-sided), temperature, cooling, tolerances and seed. Non-trivial: limits or temperature, or a convex function.")


@st.composite
def prob(draw):
    nd = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["quad", "quad", "valley", "abs", "many", "steps", "wall"]))
    c = dict(nd=nd, kind=kind, x0=[draw(fl(-3, 3)) for _ in range(nd)], cen=[draw(fl(-3, 3)) for _ in range(nd)],
             scale=[draw(fl(0.2, 3)) for _ in range(nd)], mix=draw(fl(-0.8, 0.8)), base=draw(st.sampled_from([0.0, 0.0, 1.0, -5.0, 100.0])),
             seed=draw(st.integers(0, 10000)), temp=draw(st.sampled_from([0, 0, 0, 0.1, 1, 10, 50.0])),
             cooling=draw(st.sampled_from([0.95, 0.9, 0.8])), steps=draw(st.sampled_from([10, 4])))
    c["size"] = draw(st.one_of(st.just(1), fl(0.1, 2), st.lists(fl(0.1, 2), min_size=nd, max_size=nd)))
    lk = draw(st.sampled_from(["none", "none", "one", "each", "low", "high", "edge", "tight"]))
    c["lk"] = lk
    if lk in ("one",):
        c["lim"] = [draw(fl(-9, -3.1)), draw(fl(3.1, 9))]
    if lk in ("each", "low", "high", "edge", "tight"):
        d = draw(st.sampled_from([0.3, 2.0, 10.0])) if lk != "tight" else 0.05
        lo = [v - draw(fl(0.1, 1)) * d for v in c["x0"]]
        hi = [v + draw(fl(0.1, 1)) * d for v in c["x0"]]
        if lk == "low": hi = [None] * nd
        if lk == "high": lo = [None] * nd
        if lk == "edge":
            k = draw(st.integers(0, nd - 1))
            if draw(st.booleans()): c["x0"][k] = lo[k]
            else: c["x0"][k] = hi[k] + draw(st.sampled_from([0.0, 0.5]))
        c["lim"] = [lo, hi]
    c["maxiter"] = 500 if c["temp"] == 0 else draw(st.sampled_from([20, 60, 150]))
    c["int"] = draw(st.integers(0, 9)) == 0
    if c["int"]:
        c["x0"] = [round(v) for v in c["x0"]]
    c["aslist"] = draw(st.booleans())
    return c


def makefunc(c):
    cen = A(c["cen"]) + 0.0123 * numpy.sqrt(2 + numpy.arange(c["nd"]))
    sc = A(c["scale"])
    mx = c["mix"]
    b = c["base"]
    k = c["kind"]

    def f(x):
        z = (numpy.asarray(x) - cen) * sc
        if k == "quad":
            return b + float(numpy.sum(z * z) + mx * numpy.sum(z[1:] * z[:-1]))
        if k == "valley":
            return b + float(numpy.sum(z * z) + 10 * numpy.sum((z[1:] - z[:-1] ** 2) ** 2))
        if k == "abs":
            return b + float(numpy.sum(numpy.abs(z)))
        if k == "many":
            return b + float(numpy.sum(z * z + 2 * (1 - numpy.cos(4 * z))))
        if k == "steps":
            return b + float(numpy.sum(numpy.floor(4 * z * z) * 0.25 + 0.3 * z * z))
        return b + float(numpy.sum(z * z) + 50 * numpy.sum(numpy.maximum(0, z - 0.5)))
    return f, cen


def lims(c):
    if c["lk"] == "none": return None, None, None
    l, h = c["lim"]
    if not isinstance(l, list):
        return [l, h], A([l] * c["nd"]), A([h] * c["nd"])
    l = [-math.inf if v is None else v for v in l]
    h = [math.inf if v is None else v for v in h]
    return [l, h], A(l), A(h)


def run(c, record):
    f, cen = makefunc(c)
    ll, lo, hi = lims(c)

    def g(x):
        y = f(x)
        record.append((numpy.array(x, dtype=float).copy(), y))
        return y

    x0 = list(c["x0"]) if c["aslist"] else numpy.asarray(c["x0"])
    size = c["size"]
    if isinstance(size, list) and not c["aslist"]: size = A(size)
    sx, ss, sl = numpy.array(x0).copy(), numpy.array(size).copy(), json.dumps(ll)
    am = bf.AnnealingAmoeba(g, x0, size=size, seed=c["seed"], temp=c["temp"], limits=ll, cooling=c["cooling"], steps=c["steps"],
                            maxiter=c.get("maxiter", 1000), reltol=c.get("reltol", 1e-5), abstol=c.get("abstol", 1e-5))
    err = None
    try:
        x = am.minimize()
    except bf.ConvergenceError as e:
        x, err = None, e
    ok(numpy.array_equal(sx, numpy.array(x0)) and numpy.array_equal(ss, numpy.array(size)) and sl == json.dumps(ll),
       "the user's start, size or limits are changed: start %s -> %s" % (sx, x0))
    return am, x, err


import json
COUNT = []


def amoeba(c):
    rec = []
    am, x, err = run(c, rec)
    f, cen = makefunc(c)
    ll, lo, hi = lims(c)
    if ll is not None:
        for p, y in rec:
            ok(numpy.all(p >= lo) and numpy.all(p <= hi), "point %s is evaluated outside the limits %s %s" % (p, lo, hi))
    best = min(y for p, y in rec)
    ok(am.fopt == best, "fopt %r is not the lowest of the values found, %r" % (am.fopt, best))
    ok(f(am.xopt) == am.fopt, "the function at the optimal point %s is %r, not %r" % (am.xopt, f(am.xopt), am.fopt))
    if x is not None:
        ok(numpy.array_equal(x, am.xopt), "returned %s, optimum is %s" % (x, am.xopt))
    inside = ll is None or (numpy.all(A(c["x0"]) > lo) and numpy.all(A(c["x0"]) < hi))
    if inside:
        ok(am.fopt <= f(A(c["x0"])), "optimum %r is worse than the start %r" % (am.fopt, f(A(c["x0"]))))
    COUNT.append(len(rec))
    for p, v in zip(am.simplex, am.values):
        ok(f(p) == v, "corner %s of the simplex has value %r, should be %r" % (p, v, f(p)))
    # same seed, same result
    rec2 = []
    am2, x2, err2 = run(c, rec2)
    ok(len(rec) == len(rec2) and all(numpy.array_equal(p[0], q[0]) for p, q in zip(rec, rec2)), "same seed, other points")
    if err is not None:
        return "no convergence"
    if c["kind"] == "quad" and c["temp"] == 0 and c["nd"] <= 3 and (ll is None or (numpy.all(cen > lo + 0.2) and numpy.all(cen < hi - 0.2))):
        ok(am.fopt - c["base"] < 0.02, "minimum of a convex function is %r; found %r at %s in stead of %s" % (c["base"], am.fopt, x, cen))
        return "convex/" + c["lk"]
    return "/".join([k for k in (c["lk"] if c["lk"] != "none" else "", "temp" if c["temp"] else "") if k]) or None


if __name__ == "__main__":
    sys.exit(main("C17", [Sub("amoeba", prob(), amoeba, 220, 6000)], RULE))
