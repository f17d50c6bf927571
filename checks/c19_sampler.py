"""C19: invariants and reproducibility of a nested sampling run"""
from env import *
from pbt import *
from catalog import fl
from numpy.random import RandomState
import subprocess
import c18_engines as en
import c22_dynamic as dy
from BayesicFitting.source import Explorer as ex

RULE = ("A problem as in C18 (static, dynamic or modifiable model, errors in x and y; several error distributions, weights, kept "
        "parameters) is run with a random configuration of NestedSampler or PhantomSampler (ensemble, discard, seed, engines, maxsize, keep "
        "at construction or at the call, minimum and maximum number of iterations). All samples, weights, evidence and information are "
        "recalculated; the run is repeated with another state of the global random generators. Non-trivial: more iterations than walkers.")

A = numpy.asarray
SETS = [None, None, ["galilean"], ["chord"], ["gibbs"], ["step"], ["chord", "gibbs"], ["galilean", "step", "random"], "chord",
        ["galilean", "chord", "gibbs", "step"], ["random", "chord"]]

@st.composite
def case(draw, kinds, what="ns"):
    c = draw(en.case(kinds) if kinds != "xy" else en.xycase())
    for k in ("rounds", "append", "boost", "copies", "fiarr", "N"):
        c.pop(k)
    # scales of the noise that leave something to find
    c["ns"] = n = dict(what=what, N=draw(st.integers(5, 24)), seed=draw(st.integers(0, 2 ** 31 - 1)))
    n["discard"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    if what == "phantom":
        n["step"] = draw(st.integers(1, 10))
        n["discard"] = 1
    n["min"] = draw(st.sampled_from([0, 5, 20, 40]))
    n["max"] = draw(st.integers(10, 60))
    n["end"] = draw(st.sampled_from([2, 2, 0.5, 1]))
    n["maxsize"] = draw(st.one_of(st.none(), st.none(), st.integers(2, 60)))
    e = draw(st.sampled_from(SETS))
    if isinstance(kinds, list) and kinds:
        e = draw(st.sampled_from([None, None, ["chord", "birth", "death"], ["galilean", "gibbs", "birth", "death", "struct"] if "tree" in kinds
                                  else ["galilean", "gibbs", "death", "birth"]]))
    n["engines"] = e
    n["inst"] = draw(st.booleans()) and e is not None
    n["slow"] = draw(st.sampled_from([None, None, 2, 3])) if n["inst"] else None
    n["rate"] = draw(st.sampled_from([1.0, 1.0, 2.0]))
    n["where"] = draw(st.sampled_from(["ctor", "sample", "both"]))
    n["how"] = draw(st.sampled_from(["problem", "args"]))
    n["boost"] = draw(st.integers(0, 7)) == 0 and kinds != "xy" and what == "ns"
    n["hkeep"] = [draw(st.sampled_from([0, 0, 1, 2])) for h in c["hfree"]]
    n["twice"] = draw(st.integers(0, 4)) == 0
    return c


def close(a, b, rtol, atol=0.0, msg=""):
    a, b = A(a, dtype=float), A(b, dtype=float)
    ok(a.shape == b.shape, "%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    ok(numpy.all(numpy.abs(a - b) <= atol + rtol * (1 + numpy.abs(b))), "%s: got %s, expected %s" % (msg, a.tolist(), b.tolist()))


class Run:
    """a sampler made of the case"""
    def __init__(self, c, **extra):
        self.c = c
        n = c["ns"]
        self.s = s = en.SetupXY(c) if "xy" in c else en.Setup(c)
        np = s.prob.npars
        if not s.head.hasPriors() and s.head.npars:
            raise Skip("no priors")
        # hyperparameters: fitted ones can be kept at the call
        keep = dict(s.kept)
        for i, f in enumerate(c["hfree"][:s.nh]):
            h = s.ed.hyperpar[i]
            if f:
                h.prior = bf.JeffreysPrior()
                h.setLimits(list(c["hlim"][i]))
                if n["hkeep"][i]:
                    v = 0.5 * (c["hlim"][i][0] + c["hlim"][i][1])
                    keep[np + i if n["hkeep"][i] == 1 else i - s.nh] = v
                    s.fixh[i - s.nh] = v
                    s.fi = [k for k in s.fi if k != i - s.nh]
            elif s.prob.hasAccuracy:
                s.fixh[-1] = 0.0                        # all of the scale is in the accuracy
        if not s.fi:
            raise Skip("nothing to fit")
        self.keep = keep
        self.keep0 = dict(keep)
        e = n["engines"]
        if n["inst"]:
            # external engines: the walkers are provided later
            e = [en.ENG[k](None, None, seed=n["seed"] // 7 + i, slow=n["slow"] if i else None) for i, k in enumerate([e] if isinstance(e, str) else e)]
        self.engines = e
        kw = dict(distribution=s.ed, ensemble=n["N"], seed=n["seed"], engines=e, maxsize=n["maxsize"], verbose=0, rate=n["rate"])
        kw.update(extra)
        self.ctor, self.call = n["where"] in ("ctor", "both"), n["where"] in ("sample", "both")
        if keep and self.ctor:
            kw["keep"] = keep if n["where"] == "ctor" else {k: v * 0.9 for k, v in keep.items()}
        if "xy" in c or n["how"] == "problem":
            kw["problem"] = s.prob
        else:
            kw.update(xdata=s.x, model=s.head, ydata=s.y, weights=s.w)
        if n["what"] == "phantom":
            kw["step"] = n["step"]
            self.ns = bf.PhantomSampler(**kw)
        else:
            self.ns = bf.NestedSampler(discard=n["discard"], bestBoost=n["boost"], **kw)
        self.ns.minimumIterations, self.ns.maxIterations, self.ns.end = n["min"], n["max"], n["end"]
        self.mass = []                                  # (size of the ensemble, number of samples taken)
        upd = getattr(self.ns, "updateEvidence", None)
        if upd is not None and n["what"] == "phantom":
            def wrapped(worst):
                self.mass.append((len(self.ns.walkers), worst))
                return upd(worst)
            self.ns.updateEvidence = wrapped

    def sample(self):
        kw = dict(keep=self.keep) if self.call and self.keep else {}
        try:
            return self.ns.sample(**kw)
        except RuntimeError as e:
            if "valid starting" in str(e):
                raise Skip("no valid starting point")
            raise


class W:
    """a sample in the form of a walker"""
    def __init__(self, problem, model, smp):
        class P:
            pass
        self.problem = P()
        self.problem.model = model
        self.fitIndex = smp.fitIndex
        self.allpars = numpy.concatenate([A(getattr(smp, k, [])) for k in ("parameters", "nuisance", "hyper")])
        self.logL = smp.logL


def digest(r):
    ns = r.ns
    return [[float(ns.logZ), float(ns.info), int(ns.iteration)],
            [[int(s.id), int(s.parent), int(s.start), float(s.logL), float(s.logW)] + [float(v) for v in s.allpars] + [str(s.model)] for s in ns.samples]]


def account(mass, logl):
    """logZ, information and logs of the unnormalised weights after every step; independent of the incremental formulas"""
    lx, i, lw, hist = 0.0, 0, [], []
    for n, d in mass:
        for k in range(d):
            nx = lx - 1.0 / (n - k)
            lw.append(math.log(math.exp(lx) - math.exp(nx)) + logl[i] if lx > -600 else lx + math.log(-math.expm1(-1.0 / (n - k))) + logl[i])
            lx, i = nx, i + 1
        l = A(lw)
        z = numpy.logaddexp.reduce(l)
        w = numpy.exp(l - z)
        hist.append((z, float(numpy.sum(w * A(logl[:i])) - z), lw[-1] - z))
    return lw, hist


def once(c, gseed, full=None, **extra):
    numpy.random.seed(gseed)
    import random
    random.seed(gseed)
    r = Run(c, **extra)
    st0 = numpy.random.get_state()[1].tolist(), numpy.random.get_state()[2]
    s, ns, n = r.s, r.ns, c["ns"]
    data = [None if v is None else numpy.array(v) for v in (s.prob.xdata, s.prob.ydata, s.prob.weights)]
    called = set()
    orig = {}
    for E in en.ENG.values():
        orig[E] = E.execute
        def wrap(self, *a, _f=E.execute, **k):
            called.add(type(self))
            return _f(self, *a, **k)
        E.execute = wrap
    try:
        ev = r.sample()
    finally:
        for E, f in orig.items():
            E.execute = f
    check(c, r, ev, called)
    ok(st0 == (numpy.random.get_state()[1].tolist(), numpy.random.get_state()[2]), "the sampler uses the global random generator of numpy")
    for a, b in zip(data, (s.prob.xdata, s.prob.ydata, s.prob.weights)):
        ok((a is None and b is None) or numpy.array_equal(a, b, equal_nan=True), "the data are changed")
    ok(r.keep == r.keep0, "the dictionary of kept parameters is changed: %s -> %s" % (r.keep0, r.keep))
    return r


def check(c, r, ev, called=None):
    s, ns, n = r.s, r.ns, c["ns"]
    sl = ns.samples
    names = n["engines"] if n["engines"] is not None else s.prob.myEngines()
    names = [names] if isinstance(names, str) else names
    ok([type(e) for e in ns.engines] == [en.ENG[k] for k in names], "engines are %s, asked for %s" % ([str(e) for e in ns.engines], names))
    if called is not None:
        ok(called == {en.ENG[k] for k in names}, "engines called are %s, asked for %s" % (called, names))
    ll = A([q.logL for q in sl])
    lw = A([q.logW for q in sl])
    ok(numpy.all(numpy.isfinite(ll)) and numpy.all(numpy.diff(ll) >= 0), "log likelihood is not ascending: %s" % ll)
    w = numpy.exp(lw)
    ok(abs(numpy.sum(w) - 1) < 1e-9, "weights sum to %s" % numpy.sum(w))
    # number of iterations
    it = ns.iteration
    ok(it >= min(n["min"], n["max"] + 1) and it <= max(n["max"] + 1, n["min"]), "%d iterations, asked for %s to %s" % (it, n["min"], n["max"]))
    # samples
    for i, q in enumerate(sl):
        wk = W(s.prob, q.model, q)
        s.valid(wk, ll[0], "sample %d" % i)
        ok(q.start >= -1 and q.start <= it, "start of sample %d is %s, in %d iterations" % (i, q.start, it))
    # sizes
    if n["what"] == "phantom":
        ok(len(ns.walkers) == n["N"] or it == 0, "%d walkers of %d" % (len(ns.walkers), n["N"]))
        mass = r.mass
    else:
        ok(len(ns.walkers) == n["N"] == ns.ensemble, "%d walkers of %d" % (len(ns.walkers), n["N"]))
        mass = [(n["N"], n["discard"])] * it + [(n["N"], n["N"])]
    total = sum(d for k, d in mass)
    if n["maxsize"] is not None:
        ok(len(sl) <= n["maxsize"], "%d samples, maximum is %d" % (len(sl), n["maxsize"]))
        ok(not mass or len(sl) == min(total, n["maxsize"]), "%d samples of %d, maximum is %d" % (len(sl), total, n["maxsize"]))
    elif mass:
        ok(len(sl) == total, "%d samples for %d iterations of %s" % (len(sl), it, mass[-2:]))
    # evidence
    close(ev, ns.logZ / math.log(10), 1e-12, msg="returned evidence")
    close(ns.evidence, ns.logZ / math.log(10), 1e-12, msg="evidence")
    close(sl.evidence, ns.logZ / math.log(10), 1e-12, msg="evidence in the samples")
    close(sl.info, ns.info, 1e-12, msg="information in the samples")
    close(ns.information, ns.info, 1e-12, msg="information")
    if n["what"] != "phantom":
        close(ns.logZprecision, math.sqrt(max(ns.info, 0) / n["N"]), 1e-12, msg="logZprecision")
        close(ns.precision, ns.logZprecision / math.log(10), 1e-12, msg="precision")
    if mass and len(sl) == total:
        olw, hist = account(mass, list(ll))
        z, h, _ = hist[-1]
        sc = 1 + numpy.max(numpy.abs(ll[numpy.isfinite(ll)])) * 1e-3
        close(ns.logZ, z, 1e-9, 1e-8 * sc, msg="logZ")
        close(ns.info, h, 1e-7, 1e-6 * sc, msg="information")
        close(lw, A(olw) - z, 1e-9, 1e-7 * sc, msg="log of the weights")
        if n["what"] != "phantom":
            stop = None
            for k in range(it + 1):
                # hist[k-1] is known when deciding for iteration k
                z, h, dz = hist[k - 1] if k else (0, 0.0, 0)
                if k < n["min"]:
                    continue
                e = 1e-6 * (1 + k)
                lim = n["end"] * n["N"] * h / n["discard"]
                if dz < ns.tolerance - 1e-6 or k > n["max"] or k > lim + e:
                    stop = k
                    break
                if dz < ns.tolerance + 1e-6 or k > lim - e:
                    stop = None
                    break
            else:
                fail("run ends at %d before any of the criteria is met" % it)
            if stop is not None:
                ok(stop == it, "run stopped at iteration %d; the criteria were met at %d" % (it, stop))
    # averages
    if not s.dyn:
        P = A([q.parameters for q in sl])
        circ = {i for i, q in enumerate(c.get("priors", [])) if q[0] == "circ"}
        idx = [k for k in range(P.shape[1]) if k not in circ]
        av = w @ P
        sd = numpy.sqrt(numpy.maximum(w @ (P - av) ** 2, 0))
        tol = 1e-6 * (1 + numpy.max(numpy.abs(P)))
        close(A(ns.parameters)[idx], av[idx], 1e-9, 1e-10, msg="parameters are not the averages of the samples")
        close(A(ns.stdevs)[idx], sd[idx], 1e-6, tol, msg="standard deviations of the samples")
        close(A(sl.parameters)[idx], av[idx], 1e-9, 1e-10, msg="parameters of the samples")
        close(A(s.head.parameters)[idx], av[idx], 1e-9, 1e-10, msg="parameters of the model")
        close(A(s.head.stdevs)[idx], sd[idx], 1e-6, tol, msg="standard deviations of the model")
        for k, v in r.keep.items():
            if 0 <= k < P.shape[1] and k not in circ:
                ok(numpy.all(P[:, k] == v), "kept parameter %d varies" % k)
    if s.nh:
        H = A([q.hyper for q in sl])
        av = w @ H
        close(A(ns.hypars), av, 1e-9, 1e-10, msg="hyperparameters are not the averages of the samples")
        close(A(ns.stdevHypars), numpy.sqrt(numpy.maximum(w @ (H - av) ** 2, 0)), 1e-6, 1e-6 * (1 + numpy.max(numpy.abs(H))), msg="stdev of hyperparameters")
        close(ns.scale, av[0], 1e-9, 1e-10, msg="scale")
    if "xy" not in c:
        y = sum(wt * A(s.value(q.model, A(q.parameters))) for wt, q in zip(w, sl))
        close(A(ns.yfit), y, 1e-8, 1e-8 * (1 + numpy.max(numpy.abs(y))), msg="yfit is not the average of the samples")


def run(c):
    n = c["ns"]
    r = once(c, 1)
    d = digest(r)
    r2 = once(c, 2)
    ok(d == digest(r2), "two runs with the same seed differ")
    it = r.ns.iteration
    if n["maxsize"] is not None:
        f = once(dict(c, ns=dict(n, maxsize=None)), 3)
        a, b = digest(f), d
        key = lambda q: q[:4] + q[5:]
        fa, fb = [key(q) for q in a[1]], [key(q) for q in b[1]]
        at, i = [], 0
        for q in fb:                                    # a subsequence of the complete list
            while i < len(fa) and fa[i] != q:
                i += 1
            at.append(i)
            i += 1
        ok(i <= len(fa), "with maxsize other samples are found")
        ok(a[0] == b[0], "maxsize changes the evidence: %s and %s" % (a[0], b[0]))
        wa, wb = A([a[1][i][4] for i in at]), A([q[4] for q in b[1]])
        if numpy.max(wa) > -30:
            close(wb, wa - numpy.logaddexp.reduce(wa), 1e-9, 1e-8 * (1 + numpy.max(numpy.abs(wa))), msg="weights of the remaining samples")
    if n["twice"]:
        numpy.random.seed(4)
        if not r.s.dyn:                  # dynamic ones start from the same problem again
            r.mass.clear()
            ev = r.sample()
            check(c, r, ev)
    return dict(nontrivial=it > n["N"] or (n["what"] == "phantom" and it > 5), features=[c["kind"], c["dist"]] + (["keep"] if c["keep"] else []) +
                [k for k in ("inst", "boost", "maxsize", "twice", "slow") if n[k]] + ([str(k) for k in n["engines"]] if isinstance(n["engines"], list) else []))


def process(c):
    d = json.loads(json.dumps(digest(once(c, 1))))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "--digest"], input=json.dumps(c), capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED="17"))
    if p.returncode:
        fail("other process: " + p.stderr[-600:])
    ok(json.loads(p.stdout.splitlines()[-1]) == d, "a run with the same seed in another process differs")
    return dict(nontrivial=True, features=[c["kind"]])


def threads(c):
    n = c["ns"]
    sys.setswitchinterval(1e-6)
    try:
        r = once(c, 1, threads=True)
    except Exception as e:
        if "Thread" not in str(e):
            raise
        errs = sorted(set(str(v) for v in ex.threadErrors))
        ex.threadErrors.clear()
        fail("thread: %s" % errs[:3])
    return dict(nontrivial=r.ns.iteration > n["N"], features=[c["kind"]])


@st.composite
def thcase(draw):
    c = draw(case([]))
    c["ns"].update(discard=3, boost=False, inst=False, twice=False)
    return c


if __name__ == "__main__":
    if "--digest" in sys.argv:
        print(json.dumps(digest(once(json.loads(sys.stdin.read()), 5))))
        sys.exit(0)
    alls = st.one_of(case([]), case(["poly", "harm", "rep"]), case(["spline", "tree"]), case("xy"), case([], "phantom"))
    sys.exit(main("C19", [
        Sub("static", case([]), run, 60, 1500),
        Sub("errorsxy", case("xy"), run, 12, 500),
        Sub("dynamic", case(["poly", "harm", "rep"]), run, 30, 1000),
        Sub("modifiable", case(["spline", "tree"]), run, 24, 800),
        Sub("phantom", st.one_of(case([], "phantom"), case(["poly", "harm", "spline"], "phantom")), run, 30, 800),
        Sub("threads", thcase(), threads, 6, 200),
        Sub("process", alls, process, 6, 100),
    ], RULE))
