"""C25: order problems: distances of the travelling salesman, the engines that change the order, and NestedSolver"""
from env import *
from pbt import *
from catalog import fl
from numpy.random import RandomState
import itertools, warnings, contextlib, io
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection

RULE = ("Generated sets of 3 to 9 nodes in 1 to 3 dimensions (also on a grid, and on the sphere), with each distance (names, table, callable), weights, "
        "scale, oneway; orders as random permutations. Distances against node by node formulas; minimal distance over all pairs; copies; "
        "engines: histories of moves, after each of which the walker holds a permutation with its own likelihood, above the constraint, nothing "
        "else has changed and a reported move implies it; without constraint all orders must be equally frequent; loops only uncross. "
        "NestedSolver: all samples are permutations with their own likelihood, ascending, solution is the best and close to the optimum of an "
        "exhaustive enumeration; same seed, same samples. Non-trivial: all.")
A = numpy.asarray
ENG = dict(move=bf.MoveEngine, reverse=bf.ReverseEngine, switch=bf.SwitchEngine, shuffle=bf.ShuffleEngine, loop=bf.LoopEngine, near=bf.NearEngine)
DIST = ["euclid", "manh", "spher", "table", "call"]


@st.composite
def nodes(draw, lo=3, hi=9):
    c = dict(n=draw(st.integers(lo, hi)), dist=draw(st.sampled_from(DIST)), seed=draw(st.integers(0, 10 ** 6)))
    c["dim"] = 2 if c["dist"] == "spher" else draw(st.sampled_from([2, 2, 2, 3, 1]))
    c["grid"] = draw(st.sampled_from([False, False, True]))
    c["w"] = draw(st.none() | st.lists(fl(0.2, 3), min_size=c["n"], max_size=c["n"]))
    c["scale"] = draw(st.none() | fl(0.2, 5))
    c["oneway"] = draw(st.booleans())
    c["aslist"] = draw(st.booleans())
    c["name"] = draw(st.integers(0, 2))
    return c


NAMES = dict(euclid=["euclid", "Euclidic", "eu"], manh=["manhattan", "Manh", "m"], spher=["spherical", "spher", "S"], table=["table", "tabulated", "Tab"])


class Nodes:
    def __init__(self, c):
        self.c = c
        n, rng = c["n"], RandomState(c["seed"])
        if c["grid"]:
            cells = rng.permutation(4 ** c["dim"] if c["dim"] > 1 else 20)[:n]
            x = A([[(k // 4 ** d) % 4 if c["dim"] > 1 else k for d in range(c["dim"])] for k in cells], dtype=float)
            if c["dist"] == "spher":
                x = x * 40 - 60
        else:
            x = rng.rand(n, c["dim"]) * 10
            if c["dist"] == "spher":
                x = x * [36, 17] + [-180, -85]
        self.x = x
        self.table = numpy.round(rng.rand(n, n) * 5 + 0.1, 3)
        self.n = n

    def dist(self, i, j):
        d, a, b = self.c["dist"], self.x[i], self.x[j]
        if d == "euclid": return math.sqrt(sum((a - b) ** 2))
        if d == "manh": return float(sum(abs(a - b)))
        if d == "table": return float(self.table[i, j])
        if d == "call": return float(max(abs(a - b)) + 0.5 * (a[0] > b[0]))
        u, v = [A([math.cos(p[1] * math.pi / 180) * math.cos(p[0] * math.pi / 180), math.cos(p[1] * math.pi / 180) * math.sin(p[0] * math.pi / 180),
                   math.sin(p[1] * math.pi / 180)]) for p in (a, b)]
        return math.atan2(float(numpy.linalg.norm(numpy.cross(u, v))), float(u @ v))

    def call(self, xdata, pars):
        q = list(pars)
        return A([max(abs(xdata[i] - xdata[j])) + 0.5 * (xdata[i][0] > xdata[j][0]) for i, j in zip(q, q[1:] + q[:1])])

    def problem(self):
        c = self.c
        lst = (lambda v: v.tolist()) if c["aslist"] else (lambda v: v)
        kw = dict(distance=self.call if c["dist"] == "call" else NAMES[c["dist"]][c["name"]], oneway=c["oneway"], scale=c["scale"])
        if c["dist"] == "table": kw["table"] = lst(self.table)
        if c["w"]: kw["weights"] = lst(A(c["w"]))
        with contextlib.redirect_stdout(io.StringIO()):
            return bf.SalesmanProblem(lst(self.x), **kw)

    def scale(self):
        if self.c["scale"] is not None:
            return self.c["scale"]
        return min(self.dist(i, j) for i in range(self.n) for j in range(self.n) if i != j)

    def result(self, q):
        q = list(q)
        r = A([self.dist(i, j) for i, j in zip(q, q[1:] + q[:1])]) / self.scale()
        if self.c["oneway"]: r[-1] = 0
        return r * A(self.c["w"])[q] if self.c["w"] else r


def close(a, b, what, tol=1e-9):
    a, b = A(a, dtype=float), A(b, dtype=float)
    ok(a.shape == b.shape and numpy.all(numpy.abs(a - b) <= tol * (1 + numpy.abs(b))), "%s is %s, expected %s" % (what, a, b))


def distances(c):
    N = Nodes(c)
    p = N.problem()
    rng = RandomState(c["seed"] + 1)
    d = bf.DistanceCostFunction()
    m = min(N.dist(i, j) for i in range(N.n) for j in range(N.n) if i != j)
    close(p.minimumDistance(), m, "minimumDistance", 1e-7)
    close(p.scale, N.scale(), "scale", 1e-7)
    ok(p.npars == N.n and p.ndata == N.n and p.ndim == c["dim"] and list(p.parameters) == list(range(N.n)), "sizes of the problem")
    q = p.copy()
    for k in range(4):
        o = rng.permutation(N.n)
        if k == 3: o = [int(i) for i in o]
        keep = A(o).copy()
        r = N.result(o)
        close(p.result(o), r, "result", 1e-7)
        ok(numpy.array_equal(keep, o), "result changes the order")
        close(q.result(o), r, "result of a copy", 1e-7)
        close(d.logLikelihood(p, A(o)), -sum(r), "log likelihood", 1e-7)
        close(d.logLdata(p, A(o)), -r, "log likelihood of the data", 1e-7)
        if not c["oneway"]:
            s = rng.randint(N.n)
            close(numpy.roll(p.result(numpy.roll(o, -s)), s), r, "result of a shifted order", 1e-7)
            if c["dist"] in ("euclid", "manh", "spher") and not c["w"]:
                close(sum(p.result(A(o)[::-1])), sum(r), "result of a reversed order", 1e-7)
    if c["dist"] == "table":
        ok(numpy.array_equal(A(q.table), N.table), "a copy of the problem lost its table")
    ok(str(p) == str(q), "copies are called %s and %s" % (p, q))
    ok("%d dimensions with %d nodes" % (c["dim"], N.n) in str(p), "name is %s" % p)
    return dict(nontrivial=True, features=[c["dist"]] + [k for k in ("w", "oneway", "scale") if c[k]])


@st.composite
def hist(draw):
    c = dict(N=draw(nodes(4, 12)), engine=draw(st.sampled_from(sorted(ENG))), ens=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10 ** 6)))
    c["N"]["n"] = min(c["N"]["n"], 12)
    if c["engine"] == "loop": c["N"]["dim"] = max(2, c["N"]["dim"])
    c["steps"] = draw(st.integers(5, 40))
    c["q"] = draw(st.sampled_from([None, 0.0, 0.3, 0.7]))
    return c


def history(c):
    N = Nodes(c["N"])
    p = N.problem()
    ed = bf.DistanceCostFunction()
    rng = RandomState(c["seed"])
    n = N.n
    ph = PhantomCollection(dynamic=False)
    wl = WalkerList(problem=p, ensemble=c["ens"], allpars=numpy.arange(n), fitIndex=numpy.arange(n))
    ph0 = PhantomCollection(dynamic=False)
    start = bf.StartOrderEngine(wl, ed, phantoms=ph0, seed=c["seed"] + 1)
    for i in range(c["ens"]):
        start.execute(i, -math.inf)
    for w in wl:
        check(N, w, -math.inf, "start")
    e = ENG[c["engine"]](wl, ed, phantoms=ph, seed=c["seed"] + 2)
    ls = sorted(-sum(N.result(rng.permutation(n))) for i in range(60))
    moves, same = 0, 0
    for s in range(c["steps"]):
        i = rng.randint(c["ens"])
        low = -1e300 if c["q"] is None else ls[int(60 * c["q"])]
        low = min(low, wl[i].logL)
        old = [(A(w.allpars).copy(), w.logL, w.id) for w in wl]
        nph = ph.length() if hasattr(ph, "length") else None
        with numpy.errstate(all="ignore"):
            t = e.execute(i, low)
        ok(len(wl) == c["ens"], "number of walkers is %d" % len(wl))
        for k, w in enumerate(wl):
            o, l, wid = old[k]
            ok(w.id == wid, "id of a walker changed")
            check(N, w, low if k == i else -math.inf, c["engine"])
            if k != i or t == 0:
                ok(numpy.array_equal(o, w.allpars) and w.logL == l, "%s changes walker %d, not moved" % (c["engine"], k))
        ok(isinstance(t, (int, numpy.integer)) and t >= 0, "%s returns %s" % (c["engine"], t))
        ch = not numpy.array_equal(old[i][0], wl[i].allpars)
        if t > 0:
            moves += 1
            same += not ch
            if c["engine"] == "switch":
                ok(numpy.sum(old[i][0] != wl[i].allpars) == 2, "switch changes %s into %s" % (old[i][0], wl[i].allpars))
            if c["engine"] == "reverse":
                ok(reversal(old[i][0], wl[i].allpars), "reverse changes %s into %s" % (old[i][0], wl[i].allpars))
            if c["engine"] == "loop":
                ok(reversal(old[i][0], wl[i].allpars), "loop changes %s into %s" % (old[i][0], wl[i].allpars))
                if c["N"]["dist"] == "euclid" and c["N"]["dim"] == 2 and not c["N"]["w"] and not c["N"]["oneway"]:
                    ok(wl[i].logL >= old[i][1] - 1e-9 * (1 + abs(old[i][1])), "uncrossing a loop makes the path longer: %s to %s" % (old[i][1], wl[i].logL))
            if c["engine"] == "near":
                ok(neared(N, old[i][0], wl[i].allpars), "near changes %s into %s" % (old[i][0], wl[i].allpars))
    ok(numpy.array_equal(p.xdata, N.x), "engine changes the data")
    rep = [e.report[k] if isinstance(e.report, dict) else None for k in ()]
    if moves and c["engine"] in ("switch", "reverse") : ok(same == 0, "%s reports moves without any change" % c["engine"])
    return dict(nontrivial=moves > 0, features=[c["engine"], c["N"]["dist"]] + (["dim%d" % c["N"]["dim"]]))


def check(N, w, low, what):
    q = A(w.allpars)
    ok(numpy.issubdtype(q.dtype, numpy.integer) and sorted(q.tolist()) == list(range(N.n)), "%s makes walker %s" % (what, q))
    close(w.logL, -sum(N.result(q)), "%s: log likelihood of %s" % (what, q), 1e-7)
    ok(w.logL >= low, "%s: log likelihood %s below %s" % (what, w.logL, low))


def cyc(q):
    """canonical form of a closed path"""
    q = list(q)
    k = q.index(0)
    return tuple(q[k:] + q[:k])


def reversal(a, b):
    """b is a closed path with one part of a reversed"""
    n = len(a)
    for s in range(n):
        r = list(a[s:]) + list(a[:s])
        for t in range(2, n + 1):
            if cyc(r[:t][::-1] + r[t:]) == cyc(b):
                return True
    return False


def neared(N, a, b):
    """b is a with one node moved next to a node of which it is the nearest"""
    n = len(a)
    for v in a:
        ra, rb = [k for k in a if k != v], [k for k in b if k != v]
        if cyc0(ra) != cyc0(rb):
            continue
        i = list(b).index(v)
        for nb in (b[i - 1], b[(i + 1) % n]):
            d = [(N.dist(nb, k), k) for k in range(n) if k != nb]
            if N.dist(nb, v) <= min(d)[0] + 1e-9:
                return True
    return False


def cyc0(q):
    q = list(q)
    k = q.index(min(q))
    return q[k:] + q[:k]


def uniform(c):
    """without constraint all orders are equally probable after sufficiently many moves"""
    n = 5 if c["engine"] == "reverse" else 4
    N = Nodes(dict(c["N"], n=n, w=None))
    p = N.problem()
    ed = bf.DistanceCostFunction()
    ph = PhantomCollection(dynamic=False)
    wl = WalkerList(problem=p, ensemble=1, allpars=numpy.arange(n), fitIndex=numpy.arange(n))
    E = bf.StartOrderEngine if c["engine"] == "start" else ENG[c["engine"]]
    e = E(wl, ed, phantoms=ph, seed=c["seed"])
    M = 2400
    cnt = {}
    for k in range(M):
        for r in range(1 if c["engine"] == "start" else 2):
            e.execute(0, -1e300)
        q = tuple(int(v) for v in wl[0].allpars)
        if n == 5:
            q = cyc(q)          # the start of the path does not matter
        cnt[q] = cnt.get(q, 0) + 1
    # two switches keep the parity
    m = 12 if c["engine"] == "switch" else 24
    ok(len(cnt) == m, "%s reaches only %d of the %d orders" % (c["engine"], len(cnt), m))
    # subsequent ones are correlated: generous limits
    f = M / m
    if os.environ.get("CALIB"):
        print(c["engine"], min(cnt.values()) / f, max(cnt.values()) / f, file=open(os.environ["CALIB"], "a"))
    g = 3 if c["engine"] == "reverse" else 2
    ok(max(cnt.values()) < f * g and min(cnt.values()) > f / g, "%s: frequencies of orders vary from %d to %d, expected %d" % (c["engine"], min(cnt.values()), max(cnt.values()), f))
    return dict(nontrivial=True, features=[c["engine"]])


@st.composite
def ucase(draw):
    return dict(N=draw(nodes(4, 4)), engine=draw(st.sampled_from(["move", "reverse", "switch", "shuffle", "start"])), seed=draw(st.integers(0, 10 ** 6)))


@st.composite
def solvecase(draw):
    c = dict(N=draw(nodes(4, 7)), ens=draw(st.sampled_from([10, 20, 30])), seed=draw(st.integers(0, 10 ** 6)), discard=draw(st.sampled_from([1, 1, 2, 3])))
    if c["N"]["dist"] == "call": c["N"]["dist"] = "euclid"
    e = draw(st.none() | st.lists(st.sampled_from(sorted(ENG)), min_size=1, max_size=3, unique=True))
    if e and not set(e) & {"move", "reverse", "switch", "shuffle"}: e.append("move")
    if c["N"]["dim"] == 1 and (e is None or "loop" in e): c["N"]["dim"] = 2
    c["engines"] = e
    c["edis"] = draw(st.sampled_from([None, None, "distance", "instance"]))
    c["rate"] = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0]))
    c["maxsize"] = draw(st.sampled_from([None, None, None, 20]))
    c["threads"] = draw(st.integers(0, 9)) == 0
    return c


def optimum(N):
    n = N.n
    D = A([[N.dist(i, j) if i != j else 0.0 for j in range(n)] for i in range(n)]) / N.scale()
    W = A(N.c["w"]) if N.c["w"] else numpy.ones(n)
    P = A(list(itertools.permutations(range(n))))
    s = W[P[:, :-1]] * D[P[:, :-1], P[:, 1:]]
    t = s.sum(1)
    if not N.c["oneway"]:
        t = t + W[P[:, -1]] * D[P[:, -1], P[:, 0]]
    return -t


def run(c, N):
    kw = dict(ensemble=c["ens"], seed=c["seed"], verbose=0, discard=c["discard"], rate=c["rate"], maxsize=c["maxsize"], threads=c["threads"])
    if c["engines"] is not None: kw["engines"] = list(c["engines"])
    if c["edis"]: kw["distribution"] = bf.DistanceCostFunction() if c["edis"] == "instance" else c["edis"]
    ns = bf.NestedSolver(N.problem(), **kw)
    with numpy.errstate(all="ignore"):
        s = ns.solve()
    return ns, s


def solve(c):
    N = Nodes(c["N"])
    ns, s = run(c, N)
    last = -math.inf
    for q in ns.samples:
        p = A(q.parameters)
        ok(sorted(p.tolist()) == list(range(N.n)) and numpy.issubdtype(p.dtype, numpy.integer), "sample is %s" % p)
        close(q.logL, -sum(N.result(p)), "log likelihood of sample %s" % p, 1e-7)
        ok(q.logL >= last, "samples are not ascending in likelihood")
        last = q.logL
    ok(s.logL == last, "the solution is not the best sample")
    if c["maxsize"]: ok(len(ns.samples) <= c["maxsize"], "more than maxsize samples: %d" % len(ns.samples))
    w = sum(math.exp(q.logW) for q in ns.samples)
    ok(abs(w - 1) < 1e-6, "weights of the samples sum to %s" % w)
    for q in ns.walkers:
        check(N, q, -math.inf, "walker")
    lp = optimum(N)
    top = lp.max()
    ok(s.logL <= top + 1e-7 * (1 + abs(top)), "solution %s is better than the optimum %s" % (s.logL, top))
    if not c["threads"] and not c.get("once"):
        ns2, s2 = run(c, N)
        ok(len(ns.samples) == len(ns2.samples) and ns.logZ == ns2.logZ and all(numpy.array_equal(a.parameters, b.parameters) and a.logW == b.logW
           for a, b in zip(ns.samples, ns2.samples)), "two runs with the same seed differ: logZ is %s and %s" % (ns.logZ, ns2.logZ))
    return dict(nontrivial=True, features=[c["N"]["dist"]] + (c["engines"] or ["default"]), better=float(numpy.mean(lp > s.logL + 1e-7 * (1 + abs(top)))))


def pooled(c):
    rng = RandomState(c["seed"])
    better = 0
    for i in range(c["n"]):
        N = dict(n=int(rng.randint(5, 8)), dist=DIST[rng.randint(4)], seed=int(rng.randint(10 ** 6)), dim=2, grid=False, w=None, scale=None, oneway=bool(rng.randint(2)),
                 aslist=False, name=0)
        r = solve(dict(N=N, ens=30, seed=int(rng.randint(10 ** 6)), discard=1, engines=c["engines"], edis=None, rate=1.0, maxsize=None, threads=False, once=True))
        better += r["better"] / c["n"]
    if os.environ.get("CALIB"):
        print(c, better, file=open(os.environ["CALIB"], "a"))
    ok(better < 0.1, "%.2f of all orders are better than the solutions with engines %s" % (better, c["engines"]))
    return dict(nontrivial=True, features=["pooled"])


def odd(c):
    """unknown distances fall back to the euclidic one with a warning"""
    x = A([[0.0, 0], [3, 4], [6, 8], [6, 0]])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        p = bf.SalesmanProblem(x, distance=c["d"], scale=1)
    ok(len(w) > 0, "no warning about distance %s" % c["d"])
    close(p.result(numpy.arange(4)), [5, 5, 8, 6], "result")
    ok("Eucl" in str(p), "name is %s" % p)
    return "odd"


if __name__ == "__main__":
    s0 = int(os.environ.get("VERIF_SEED", "1"))
    big = "thorough" in sys.argv
    E = [dict(n=8, engines=e, seed=s0 * 100 + i) for e in (None, ["move"], ["reverse"], ["switch"], ["shuffle"], ["near", "move"]) for i in range(8 if big else 1)]
    sys.exit(main("C25", [Sub("distances", nodes(), distances, 400, 20000), Sub("engines", hist(), history, 500, 20000), Sub("uniform", ucase(), uniform, 10, 300),
                          Sub("solve", solvecase(), solve, 10, 800), Enum("pooled", E, pooled), Enum("odd", [dict(d="xyz"), dict(d=3)], odd)], RULE))
