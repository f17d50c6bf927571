import sys
from env import *
from pbt import *
from catalog import *

RULE = ("Random histories of up to 25 operations (add, copy, weed, normalize, index, mutate; insert, crop, set; store, query) on sample lists, walker lists and phantom "
        "collections, of static and of dynamic models (different parameter lengths), compared after each operation with a plain list of records; averages etc. with numpy on "
        "the records. Non-trivial: at least four operations that changed the container.")


def model(k):
    if k == "dyn": return bf.PolynomialDynamicModel(1)
    if k == "circ":
        m = bf.PolynomialModel(1)
        m.setPrior(0, bf.UniformPrior(circular=True, limits=[-3, 3]))
        m.setPrior(1, bf.UniformPrior(limits=[-9, 9]))
        return m
    return bf.PolynomialModel(int(k))


def dynmodel(n):
    return bf.PolynomialDynamicModel(n - 1)


NUM = fl(-3, 3)
IDX = st.integers(0, 30)
SOP = st.one_of(
    st.tuples(st.just("add"), st.lists(NUM, min_size=1, max_size=4), fl(0.1, 2), fl(-30, 0), fl(-12, 0)),
    st.tuples(st.just("add"), st.lists(NUM, min_size=1, max_size=4), fl(0.1, 2), fl(-30, 0), fl(-12, 0)),
    st.tuples(st.just("copy"), IDX, IDX), st.tuples(st.just("weed"), st.one_of(st.none(), st.integers(1, 12))),
    st.tuples(st.just("norm")), st.tuples(st.just("set"), IDX, fl(-5, 0)), st.tuples(st.just("mut"), IDX, NUM), st.tuples(st.just("stat"))).map(list)


@st.composite
def shist(draw):
    return dict(m=draw(st.sampled_from(["0", "1", "2", "dyn", "circ"])), n=draw(st.integers(1, 6)), fi=draw(st.booleans()), init=draw(st.lists(NUM, min_size=3, max_size=3)),
                ops=draw(st.lists(SOP, min_size=6, max_size=25)) + [["norm"]], x=draw(st.lists(fl(-2, 2), min_size=1, max_size=4)), shift=draw(st.sampled_from([0, 0, -300.0, 200.0])))


class Rec:
    def __init__(self, **k): self.__dict__.update(k)
    def cp(self): return Rec(**{k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.__dict__.items()})


def samecontents(sl, ref, what):
    ok(len(sl) == len(ref), "%s: %d samples, expected %d" % (what, len(sl), len(ref)))
    for k, (s, r) in enumerate(zip(sl, ref)):
        got = (s.id, s.parent, s.logL)
        ok(got == (r.id, r.parent, r.logL), "%s: item %d has id, parent, logL %s, expected %s" % (what, k, got, (r.id, r.parent, r.logL)))
        ok(abs(s.logW - r.logW) < 1e-9 * (1 + abs(r.logW)), "%s: item %d has logW %r, expected %r" % (what, k, s.logW, r.logW))
        ok(numpy.array_equal(A(s.parameters), r.pars), "%s: item %d has parameters %s, expected %s" % (what, k, s.parameters, r.pars))
        ok(numpy.array_equal(A(s.hyper), r.hyp), "%s: item %d has hyperparameters %s, expected %s" % (what, k, s.hyper, r.hyp))
        ok(numpy.array_equal(A(s.allpars), numpy.append(r.pars, r.hyp)), "%s: allpars of item %d" % (what, k))
        ok(s.model.npchain == len(r.pars), "%s: model of item %d has %d parameters, expected %d" % (what, k, s.model.npchain, len(r.pars)))
    ids = [s.id for s in sl]
    ok(len(set(ids)) == len(ids), "%s: ids are not unique: %s" % (what, ids))


def samples(c):
    dyn = c["m"] == "dyn"
    mdl = model(c["m"])
    np = mdl.npchain
    init = A(c["init"][:np])
    sl = bf.SampleList(mdl, c["n"], parameters=init.copy(), fitIndex=numpy.arange(np) if c["fi"] else None, ndata=3)
    ref = []
    for k in range(c["n"]):
        sl[k].hyper = A([0.5])
        ref.append(Rec(id=k, parent=-1, logL=0.0, logW=0.0, pars=init.copy(), hyp=A([0.5])))
    cnt, changed, feats = c["n"], 0, set()
    samecontents(sl, ref, "constructor")
    if dyn: ok(len(set(id(s.model) for s in sl)) == len(sl), "samples of a dynamic model share the model")
    for op in c["ops"]:
        o, n = op[0], len(ref)
        if o == "add":
            p = A(op[1]) if dyn else A((op[1] * 3)[:np])
            m = dynmodel(len(p)) if dyn else mdl
            s = bf.Sample(17, 5, 3, m, parameters=p.copy(), fitIndex=numpy.arange(len(p)))
            s.hyper = A([op[2]])
            s.logL, s.logW = op[3], op[4] + c["shift"]
            sl.add(s)
            ref.append(Rec(id=cnt, parent=17, logL=op[3], logW=op[4] + c["shift"], pars=p, hyp=A([op[2]])))
            cnt += 1
        elif o == "copy":
            i, j = op[1] % n, op[2] % n
            sl.copy(i, j)
            r = ref[i].cp(); r.id = ref[j].id
            ref[j] = r
            if i != j: ok(sl[i] is not sl[j] and sl[i].parameters is not sl[j].parameters, "copy shares the sample")
        elif o == "weed":
            sl.weed(op[1])
            if op[1] is not None:
                while len(ref) > op[1]:
                    ref.pop(0 if ref[0].logW < ref[-1].logW else -1)
        elif o == "norm":
            sl.normalize()
            lw = A([r.logW for r in ref])
            z = numpy.logaddexp.reduce(lw)
            for r in ref: r.logW -= z
            w = sl.getWeightEvolution()
            ok(abs(numpy.sum(w) - 1) < 1e-10, "sum of the weights is %r after normalize" % numpy.sum(w))
            ok(sl.normalized, "not marked as normalized")
        elif o == "set":
            i = op[1] % n
            sl[i].logL = op[2]; ref[i].logL = op[2]
        elif o == "mut":
            i = op[1] % n
            # in place change of one sample; a new array as the samples of the constructor share theirs
            q = A(sl[i].parameters).copy(); q[0] = op[2]
            if o == "mut" and sum(s.parameters is sl[i].parameters for s in sl) == 1: sl[i].parameters[0] = op[2]
            else: sl[i].parameters = q
            ref[i].pars[0] = op[2]
        elif o == "stat":
            statistics(sl, ref, c, mdl, dyn)
            continue
        changed += 1; feats.add(o)
        samecontents(sl, ref, o)
        ok(sl.sample(len(ref) // 2) is sl[len(ref) // 2], "sample(k)")
    statistics(sl, ref, c, mdl, dyn)
    return dict(nontrivial=changed >= 4, features=sorted(feats) + ["model " + c["m"]])


def statistics(sl, ref, c, mdl, dyn):
    low, klo = sl.getLowLogL()
    ll = A([r.logL for r in ref])
    ok(low == ll.min() and ll[klo] == low, "lowest likelihood %r at %d in %s" % (low, klo, ll.tolist()))
    close1(sl.getLogLikelihoodEvolution(), ll, "evolution of logL")
    close1(sl.getLogWeightEvolution(), [r.logW for r in ref], "evolution of logW")
    ok(list(sl.getGeneration()) == [r.id for r in ref], "ids")
    ok(list(sl.getParentEvolution()) == [r.parent for r in ref], "parents")
    ok(list(sl.getNumberOfParametersEvolution()) == [len(r.pars) for r in ref], "number of parameters")
    ok(sl.getMaximumNumberOfParameters() == max(len(r.pars) for r in ref), "maximum number of parameters")
    close1(sl.getScaleEvolution(), [r.hyp for r in ref], "evolution of the hyperparameters")
    import copy as cpy
    w = numpy.exp(A([r.logW for r in ref]))
    if abs(w.sum() - 1) > 1e-9: return
    hy = A([r.hyp for r in ref])
    close1(sl.getHypars(), w @ hy, "average of the hyperparameters")
    close1(sl.stdevHypars, numpy.sqrt(w @ (hy - w @ hy) ** 2), "deviation of the hyperparameters", 1e-6, 3)
    close1(sl.scale, (w @ hy)[0], "scale"); close1(sl.stdevScale, numpy.sqrt(w @ (hy - w @ hy) ** 2)[0], "stdevScale", 1e-6, 3)
    lw = A([r.logW for r in ref])
    if "medianIndex" not in vars(sl):
        k = sl.medianIndex
        cum = numpy.cumsum(w)
        ok(cum[k] >= 0.5 - 1e-9 and (k == 0 or cum[k - 1] < 0.5 + 1e-9), "median index %d: cumulated weights %s" % (k, cum.tolist()))
        del sl.medianIndex
        k = sl.modusIndex
        ok(lw[k] >= lw.max() - 1e-9, "modus index %d of %s" % (k, lw.tolist()))
        del sl.modusIndex
        ok(numpy.array_equal(sl.maxLikelihoodParameters, ref[-1].pars), "maxLikelihoodParameters is not the last one")
        ok(numpy.array_equal(sl.modusParameters, ref[k].pars), "modus parameters")
        del sl.modusIndex
    x = A(c["x"])
    Y = numpy.array([sum(p * x ** j for j, p in enumerate(r.pars)) for r in ref])
    av = w @ Y
    close1(sl.average(x), av, "average of the models", 1e-8)
    sd = numpy.sqrt(w @ (Y - av) ** 2)
    close1(sl.monteCarloError(x), sd, "Monte Carlo error", 1e-6, 1 + numpy.max(abs(Y)))
    x2 = x[::-1] + 0.5
    Y2 = numpy.array([sum(p * x2 ** j for j, p in enumerate(r.pars)) for r in ref])
    close1(sl.monteCarloError(x2), numpy.sqrt(w @ (Y2 - w @ Y2) ** 2), "Monte Carlo error at other points", 1e-6, 1 + numpy.max(abs(Y2)))
    if dyn: return
    P = A([r.pars for r in ref])
    close1(sl.getParameterEvolution(), P, "evolution of the parameters")
    for k in range(P.shape[1]): close1(sl.getParameterEvolution(k), P[:, k], "evolution of parameter %d" % k)
    pe, we = sl.getParAndWgtEvolution()
    close1(pe, P, "getParAndWgt"); close1(we, w, "getParAndWgt")
    pars = A(sl.getParameters())
    sd = A(sl.stdevs)
    m0 = w @ P
    s0 = numpy.sqrt(w @ (P - m0) ** 2)
    if c["m"] == "circ":
        ang = P[:, 0] * math.pi / 3
        z = w @ numpy.exp(1j * ang)
        if abs(z) > 1e-3:
            m0[0] = numpy.angle(z) * 3 / math.pi
            d = (P[:, 0] - m0[0] + 3) % 6 - 3
            s0[0] = math.sqrt(w @ d ** 2)
            ok(abs((pars[0] - m0[0] + 3) % 6 - 3) < 1e-8 / abs(z), "circular average %r, expected %r" % (pars[0], m0[0]))
            if numpy.all(abs(abs(d) - 3) > 1e-3): ok(abs(sd[0] - s0[0]) < 5e-6 / abs(z), "circular deviation %r, expected %r" % (sd[0], s0[0]))
        pars, m0, sd, s0 = pars[1:], m0[1:], sd[1:], s0[1:]
    close1(pars, m0, "average of the parameters")
    close1(sd, s0, "deviation of the parameters", 1e-6, 5)


def close1(a, b, what, tol=1e-9, scale=None):
    a, b = A(a), A(b)
    ok(a.shape == b.shape, "%s: shape %s, expected %s" % (what, a.shape, b.shape))
    s = 1 + numpy.max(abs(b)) if scale is None else scale
    ok(numpy.all(abs(a - b) <= tol * s), "%s: %s, expected %s" % (what, a.tolist(), b.tolist()))


WOP = st.one_of(
    st.tuples(st.just("insert"), st.lists(NUM, min_size=1, max_size=4), st.one_of(fl(-9, 9), st.integers(-3, 3).map(float))),
    st.tuples(st.just("insert"), st.lists(NUM, min_size=1, max_size=4), st.one_of(fl(-9, 9), st.integers(-3, 3).map(float))),
    st.tuples(st.just("crop"), st.one_of(fl(-9, 9), st.integers(-3, 3).map(float))), st.tuples(st.just("set"), st.lists(NUM, min_size=1, max_size=4), fl(-9, 9), IDX),
    st.tuples(st.just("append"), st.lists(NUM, min_size=1, max_size=4), fl(-9, 9)), st.tuples(st.just("copy"), IDX, IDX, st.integers(0, 99)), st.tuples(st.just("mut"), IDX, NUM),
    st.tuples(st.just("more"), IDX, st.integers(0, 3)), st.tuples(st.just("sort"))).map(list)


@st.composite
def whist(draw):
    return dict(m=draw(st.sampled_from(["1", "1", "dyn"])), n=draw(st.integers(0, 5)), init=draw(st.lists(NUM, min_size=2, max_size=2)), ops=draw(st.lists(WOP, min_size=6, max_size=25)),
                other=draw(st.booleans()))


def walker(p, logL, dyn, wid=0):
    m = dynmodel(len(p)) if dyn else bf.PolynomialModel(1)
    pr = bf.ClassicProblem(m, xdata=A([0, 1, 2.0]), ydata=A([1, 2, 4.0]))
    w = bf.Walker(wid, pr, A(list(p) + [0.5]), numpy.arange(len(p)), logL=float(logL))
    return w


def wcontents(wl, ref, what):
    ok(len(wl) == len(ref), "%s: %d walkers, expected %d" % (what, len(wl), len(ref)))
    for k, (w, r) in enumerate(zip(wl, ref)):
        ok(w.logL == r.logL and numpy.array_equal(w.allpars, r.pars), "%s: item %d has %r %s, expected %r %s" % (what, k, w.logL, w.allpars, r.logL, r.pars))
        ok(w.problem.npars == len(r.pars) - 1, "%s: problem of item %d has %d parameters, expected %d" % (what, k, w.problem.npars, len(r.pars) - 1))
        if r.id is not None: ok(w.id == r.id, "%s: item %d has id %d, expected %d" % (what, k, w.id, r.id))


def walkers(c):
    dyn = c["m"] == "dyn"
    w0 = walker(c["init"], -1.0, dyn)
    wl = bf.WalkerList(problem=w0.problem, ensemble=c["n"], allpars=w0.allpars, fitIndex=w0.fitIndex)
    ref = [Rec(id=k, logL=0.0, pars=A(c["init"] + [0.5])) for k in range(c["n"])]
    wcontents(wl, ref, "constructor")
    ok(len(set(id(w) for w in wl)) == len(wl) and len(set(id(w.allpars) for w in wl)) == len(wl), "constructor: walkers share their parameters")
    if dyn: ok(len(set(id(w.problem.model) for w in wl)) == len(wl), "constructor: walkers share a dynamic model")
    cnt, changed, feats = c["n"], 0, set()
    for op in c["ops"]:
        o, n = op[0], len(ref)
        if o in ("insert", "set", "append"):
            p = A(op[1]) if dyn else A((op[1] * 2)[:2])
            w = walker(p, op[2], dyn, 77)
            r = Rec(id=None, logL=float(op[2]), pars=w.allpars.copy())
        if o == "insert":
            wl.sort(key=lambda z: z.logL); ref.sort(key=lambda z: z.logL)
            before = list(wl)
            wl = wl.insertWalker(w)
            k = sum(1 for q in ref if q.logL <= r.logL)
            ref.insert(k, r)
            cnt += 1
            ok(all(any(a is b for b in wl) for a in before) and any(w is b for b in wl), "insertWalker lost walkers")
            if n == 0: r.id = w.id
        elif o == "crop":
            wl.sort(key=lambda z: z.logL); ref.sort(key=lambda z: z.logL)
            fi = wl.firstIndex(op[1])
            k = sum(1 for q in ref if q.logL <= op[1])
            ok(fi == k if n else fi is None, "firstIndex %r, expected %d" % (fi, k))
            wl = wl.cropOnLow(op[1])
            ref = [q for q in ref if q.logL > op[1]]
        elif o == "set":
            if n == 0: continue
            i = op[3] % n
            wl.setWalker(w, i)
            r.id = w.id
            ref[i] = r
        elif o == "append":
            ids = [q.id for q in wl]
            wl.setWalker(w, n + 3)
            ref.append(r)
            ok(w.id == wl._count - 1 and w.id >= max(ids + [-1]) or 77 in ids, "appended walker has id %d among %s" % (w.id, ids))
            r.id = w.id
            cnt += 1
        elif o == "copy":
            if n == 0: continue
            i, j = op[1] % n, op[2] % n
            idj = wl[j].id
            if c["other"]:
                wo = bf.WalkerList(walkerlist=[q.copy() for q in wl])
                wl.copy(i, j, wlist=wo, start=op[3])
            else: wl.copy(i, j, start=op[3])
            q = ref[i].cp(); q.id = idj
            ref[j] = q
            ok(wl[j].parent == i and wl[j].start == op[3], "copy: parent %r start %r, expected %r %r" % (wl[j].parent, wl[j].start, i, op[3]))
            if i != j:
                ok(wl[i].allpars is not wl[j].allpars, "copy shares the parameters")
                if dyn: ok(wl[i].problem.model is not wl[j].problem.model, "copy shares the dynamic model")
        elif o == "mut":
            if n == 0: continue
            i = op[1] % n
            wl[i].allpars[0] = op[2]; ref[i].pars[0] = op[2]
        elif o == "more":
            if n == 0: continue
            i = op[1] % n
            c0 = wl._count
            wl.addWalkers(wl[i], op[2])
            for k in range(op[2]):
                q = ref[i].cp(); q.id = c0 + k
                ref.append(q)
        elif o == "sort":
            wl.sort(key=lambda z: z.logL); ref.sort(key=lambda z: z.logL)
        changed += 1; feats.add(o)
        wcontents(wl, ref, o)
        if ref:
            low, klo = wl.getLowLogL()
            ll = [q.logL for q in ref]
            ok(low == min(ll) and ll[klo] == low, "lowest likelihood")
            close1(wl.getLogL(), ll, "likelihoods")
            ap = wl.allPars()
            nm = max(len(q.pars) for q in ref)
            ok(ap.shape == (len(ref), nm), "shape of allPars")
            for k, q in enumerate(ref):
                ok(numpy.array_equal(ap[k], numpy.append(q.pars, numpy.zeros(nm - len(q.pars)))), "allPars of %d: %s, expected %s" % (k, ap[k], q.pars))
            s = wl[-1].toSample(-2.5)
            q = ref[-1]
            ok(s.logW == -2.5 and s.logL == q.logL and s.id == wl[-1].id and numpy.array_equal(s.parameters, q.pars[:-1]) and numpy.array_equal(s.hyper, q.pars[-1:]),
               "toSample: %s %s %s of %s" % (s, s.parameters, s.hyper, q.pars))
    return dict(nontrivial=changed >= 4, features=sorted(feats) + ["model " + c["m"]])


POP = st.one_of(st.tuples(st.just("store"), st.lists(fl(-9, 9), min_size=1, max_size=2), st.one_of(fl(-9, 9), st.integers(-2, 2).map(float))),
                st.tuples(st.just("store"), st.lists(fl(-9, 9), min_size=1, max_size=2), st.one_of(fl(-9, 9), st.integers(-2, 2).map(float))),
                st.tuples(st.just("store"), st.lists(fl(-9, 9), min_size=1, max_size=2), st.one_of(fl(-9, 9), st.integers(-2, 2).map(float))),
                st.tuples(st.just("get"), st.one_of(fl(0, 2), st.just(0.0)), st.integers(1, 2))).map(list)


@st.composite
def phist(draw):
    return dict(dyn=draw(st.booleans()), ops=draw(st.lists(POP, min_size=12, max_size=50)), low=draw(fl(-9, -5)))


def phantom(c):
    dyn = c["dyn"]
    pc = bf.PhantomCollection(dynamic=dyn) if hasattr(bf, "PhantomCollection") else fail("no PhantomCollection")
    low = c["low"]
    held, last, gets, drops, ncalls, found = {}, {}, 0, 0, 0, False
    for op in c["ops"]:
        if op[0] == "store":
            # only walkers above the constraint are accepted, hence stored
            if op[2] < low: continue
            p = A(op[1]) if dyn else A((op[1] * 2)[:2])
            w = walker(p, op[2], dyn)
            pc.storeItems(w)
            ncalls += 1
            held.setdefault(len(p) if dyn else 0, []).append(w)
        else:
            low += op[1]
            np = op[2] if dyn else 2
            key = np if dyn else 0
            h = held.setdefault(key, [])
            old = last.get(key)
            mn, mx = pc.getParamMinmax(low, np=np)
            gets += 1
            found = found or mn is not None
            if old is None or low > old[0]:
                drops += sum(1 for w in h if w.logL <= low)
                h[:] = [w for w in h if w.logL > low]
                fresh = True
                now = pc.phantoms.get(key, []) if dyn else pc.phantoms
                ok(all(w.logL > low for w in now), "phantoms at or below the new constraint %r: %s" % (low, [w.logL for w in now]))
            else: fresh = False
            def ext(ws):
                if len(ws) == 0 or (dyn and len(ws) <= pc.minpars): return None, None
                a = A([w.allpars for w in ws])
                return a.min(axis=0), a.max(axis=0)
            emn, emx = ext(h)
            def eq(a, b): return (a is None and b is None) or (a is not None and b is not None and numpy.array_equal(a, b))
            good = eq(mn, emn) and eq(mx, emx)
            if not fresh and not good:
                # same constraint: the extremes found when the constraint was set, or those of the walkers above it
                emn2, emx2 = ext([w for w in h if w.logL > low])
                good = (eq(mn, old[1]) and eq(mx, old[2])) or (eq(mn, emn2) and eq(mx, emx2))
            ok(good, "extremes %s %s of the walkers above %r, expected %s %s" % (mn, mx, low, emn, emx))
            last[key] = (low, mn, mx)
        for key, h in held.items():
            wl = (pc.phantoms.get(key, []) if dyn else pc.phantoms)
            lim = last[key][0] if key in last else -math.inf
            a = [w for w in wl]
            ll = [w.logL for w in a]
            ok(ll == sorted(ll), "phantoms are not sorted: %s" % ll)
            ok(all(any(w is q for q in h) and w.logL >= lim for w in a), "phantom that was not stored or below the constraint")
            ok(all(any(w is q for q in a) for w in h if w.logL > lim), "stored phantom above the constraint is lost")
            ok(pc.length(key) == len(a) if dyn else pc.length() == len(a), "length")
            if a:
                g = pc.getList(a[0])
                ok([w for w in g] == a, "getList")
    ok(pc.ncalls == ncalls, "calls %d, expected %d" % (pc.ncalls, ncalls))
    return dict(nontrivial=gets >= 2 and drops >= 1, features=["dynamic" if dyn else "static"] + (["extremes"] if found else []))


sys.exit(main("C21", [Sub("samples", shist(), samples, 500, 20000), Sub("walkers", whist(), walkers, 500, 20000), Sub("phantoms", phist(), phantom, 500, 20000)], RULE))
