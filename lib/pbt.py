"""Small runner around Hypothesis.

A check is a list of Sub(name, gen, check, quick, thorough).  `gen` is a Hypothesis
strategy that yields a *plain* case (dict/list/str/number/None), `check(case)` runs the
real code of /repo on it and raises on a breach of the property.  It may return a label
(str) when the case was non-trivial, or None/False when it was trivial.

Every random choice is in the strategy; a run is a function of the code and VERIF_SEED.
A failing case is shrunk and written to replays/<id>-<sub>.json, which can be replayed
without Hypothesis:   ./run.sh C01 --replay replays/C01-xxx.json
"""
import os, sys, json, time, hashlib, traceback, signal, zlib, warnings
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 120          # seconds, for cases that normally take milliseconds


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The case is outside the domain of the property; counted, never a failure."""
    def __init__(self, why=""):
        super().__init__(why)
        self.why = why


class CaseTimeout(Violation):
    pass


class StopShrinking(KeyboardInterrupt):
    pass


class Sub:
    def __init__(self, name, gen, check, quick=100, thorough=None, timeout=None, examples=(),
                 shards=4, wall=None):
        self.name = name
        self.gen = gen              # strategy, or zero-arg callable returning one
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else 12 * quick
        self.timeout = timeout or CASE_TIMEOUT
        self.examples = list(examples)   # explicit cases run before the search
        self.shards = shards             # number of shards in the thorough tier
        self.wall = wall


class Enum(Sub):
    """Exhaustive / fixed enumeration of cases (no generator)."""
    def __init__(self, name, cases, check, **kw):
        super().__init__(name, None, check, quick=0, thorough=0, examples=cases, **kw)


def fail(msg):
    raise Violation(msg)


def ok(cond, msg=""):
    if not cond:
        raise Violation(msg)


def clean(o):
    """make JSON-able"""
    import numpy
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, numpy.ndarray):
        return clean(o.tolist())
    if isinstance(o, (numpy.integer,)):
        return int(o)
    if isinstance(o, (numpy.floating,)):
        return float(o)
    if isinstance(o, (numpy.bool_,)):
        return bool(o)
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    return repr(o)


def dumps(case):
    return json.dumps(clean(case), sort_keys=True)


def _alarm(signum, frame):
    raise CaseTimeout("the case did not terminate within its (very generous) time limit")


def guarded(sub, case):
    """Run one case with a clean global state and a watchdog."""
    import numpy
    numpy.random.seed(12345)
    warnings.simplefilter("ignore")
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(sub.timeout))
    try:
        with numpy.errstate(all="ignore"):
            return sub.check(case)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    keep = [f for f in tb if "/hypothesis/" not in f.filename]
    return ["%s:%d in %s: %s" % (os.path.basename(f.filename), f.lineno, f.name, (f.line or "")[:120])
            for f in keep[-8:]]


def run_sub(sub, seed, n, wall, shrink_wall=25.0):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    res = dict(name=sub.name, evaluations=0, skipped={}, labels={}, distinct=0, samples=[],
               failure=None, out_of_time=0, error=None)
    seen = set()
    best = {}
    t0 = time.time()
    state = dict(tfail=None)

    def one(case, record=True):
        if state["tfail"] is not None and time.time() - state["tfail"] > shrink_wall:
            raise StopShrinking()
        if state["tfail"] is None and time.time() - t0 > wall:
            res["out_of_time"] += 1
            return
        try:
            if record:
                res["evaluations"] += 1
            label = guarded(sub, case)
        except Skip as s:
            why = s.why if s.why in res["skipped"] or len(res["skipped"]) < 12 else "other"
            res["skipped"][why] = res["skipped"].get(why, 0) + 1
            return
        except (hypothesis.errors.HypothesisException, StopShrinking):
            raise
        except hypothesis.errors.StopTest:
            raise
        except Exception as e:
            if state["tfail"] is None:
                state["tfail"] = time.time()
            txt = dumps(case)
            if not best or len(txt) <= len(best["txt"]):
                best.update(txt=txt, case=clean(case), error="%s: %s" % (type(e).__name__, str(e)[:2000]),
                            tb=short_tb(e))
            raise
        if isinstance(label, dict):            # dict(nontrivial=bool, features=[...])
            for ft in label.get("features", ()):
                ft = "~" + str(ft)
                res["labels"][ft] = res["labels"].get(ft, 0) + 1
            label = "nontrivial" if label.get("nontrivial") else None
        if label:
            lab = label if isinstance(label, str) else "nontrivial"
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
            h = hashlib.md5(dumps(case).encode()).digest()
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 2 or (len(seen) % 97 == 0 and len(res["samples"]) < 4):
                    res["samples"].append(dict(sub=sub.name, label=lab, case=clean(case)))

    try:
        for ex in sub.examples:
            one(ex)
        if sub.gen is not None and n > 0:
            gen = sub.gen() if callable(sub.gen) and not hasattr(sub.gen, "example") else sub.gen

            @hypothesis.seed(seed)
            @settings(max_examples=n, deadline=None, database=None, derandomize=False,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink))
            @hypothesis.given(gen)
            def test(case):
                one(case)
            test()
    except StopShrinking:
        pass
    except BaseException as e:
        if not best:
            res["error"] = "%s: %s\n%s" % (type(e).__name__, e, "\n".join(short_tb(e)))
    if best:
        res["failure"] = dict(case=best["case"], error=best["error"], traceback=best["tb"])
    res["distinct"] = len(seen)
    res["wall"] = time.time() - t0
    return res


def _worker(conn, sub, seed, n, wall):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, "w")
        r = run_sub(sub, seed, n, wall)
    except BaseException as e:      # pragma: no cover
        r = dict(name=sub.name, evaluations=0, skipped={}, labels={}, distinct=0, samples=[],
                 failure=None, out_of_time=0, error="worker: %r" % e, wall=0)
    conn.send(json.dumps(clean(r)))
    conn.close()


def subseed(seed, name, shard=0):
    return (seed * 1000003 + zlib.crc32(("%s/%d" % (name, shard)).encode())) % (2 ** 32)


def run_all(subs, seed, tier, wall, nproc=8):
    tasks = []
    for s in subs:
        if tier == "thorough" and s.gen is not None:
            for k in range(s.shards):
                tasks.append((s, subseed(seed, s.name, k), max(1, s.thorough // s.shards)))
        else:
            tasks.append((s, subseed(seed, s.name), s.quick))
    # longest first is not known; keep the order given
    running, results, idx = [], [None] * len(tasks), 0
    ctx = mp.get_context("fork")
    while idx < len(tasks) or running:
        while idx < len(tasks) and len(running) < nproc:
            s, sd, n = tasks[idx]
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(b, s, sd, n, s.wall or wall))
            p.start()
            b.close()
            running.append((idx, p, a, time.time()))
            idx += 1
        for item in list(running):
            i, p, a, ts = item
            r = None
            if a.poll(0.01):
                try:
                    r = json.loads(a.recv())
                except EOFError:
                    r = dict(name=tasks[i][0].name, evaluations=0, skipped={}, labels={}, distinct=0,
                             samples=[], failure=None, out_of_time=0,
                             error="worker process died (exit %s)" % p.exitcode, wall=time.time() - ts)
                p.join()
                running.remove(item)
                results[i] = r
    return results


def load_known(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k.get("status") == "known"]


def main(prop, subs, rule, assumptions=(), known=None, level="exploration"):
    """known : dict name -> zero-argument callable that raises as long as the finding is there."""
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "thorough" in args:
        tier = "thorough"
    if "quick" in args:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    byname = {s.name: s for s in subs}
    assert len(byname) == len(subs), "duplicate sub names"
    if "--replay" in args:
        rep = json.load(open(os.path.join(VERIF, args[args.index("--replay") + 1])))
        sub = byname[rep["sub"]]
        try:
            guarded(sub, rep["case"])
        except Skip as s:
            print("skipped:", s.why)
            return 0
        except Exception as e:
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (prop, args[args.index("--replay") + 1]))
            return 1
        print("replay passes")
        return 0
    if "--sub" in args:
        pat = args[args.index("--sub") + 1]
        subs = [s for s in subs if pat in s.name]
    t0 = time.time()
    wall = float(os.environ.get("VERIF_WALL", "150" if tier == "quick" else "700"))
    out = run_all(subs, seed, tier, wall)
    viol, errors = [], []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for r in out:
        if r["failure"]:
            path = os.path.join("replays", "%s-%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in r["name"])))
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=prop, sub=r["name"], seed=seed, tier=tier, **r["failure"]), f, indent=1)
            viol.append((r["name"], path, r["failure"]))
        if r["error"]:
            errors.append((r["name"], r["error"]))
    # known findings: still-failing registered ones are announced, not alarms
    nknown = 0
    listed = load_known(prop)
    for k in listed:
        probe = (known or {}).get(k["probe"])
        if probe is None:
            errors.append(("known", "no probe %s" % k["probe"]))
            continue
        import numpy, io, contextlib
        try:
            with contextlib.redirect_stdout(io.StringIO()), numpy.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                numpy.random.seed(12345)
                probe()
        except Exception:
            nknown += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    per = {}
    for r in out:
        d = per.setdefault(r["name"], dict(evaluations=0, distinct_nontrivial=0, labels={}, skipped={}, not_run_time=0))
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += r["distinct"]
        d["not_run_time"] += r["out_of_time"]
        for a, b in (("labels", r["labels"]), ("skipped", r["skipped"])):
            for k2, v in b.items():
                d[a][k2] = d[a].get(k2, 0) + v
        d["wall_s"] = round(d.get("wall_s", 0) + r.get("wall", 0), 2)
    samples = []
    for r in out:
        samples += r["samples"][:1 if len(out) > 12 else 2]
    samples = [s for s in samples if len(json.dumps(s)) < 6000][:24]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=sum(r["evaluations"] for r in out),
                            distinct_nontrivial=sum(r["distinct"] for r in out),
                            rule=rule, samples=samples, per_generator=per,
                            known_findings_seen=nknown),
              assumptions=list(assumptions) or ["IEEE double arithmetic; stated tolerances"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if "--sub" not in args:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n, p, f in viol:
        print("  %s: %s" % (n, f["error"].splitlines()[0][:300]))
        print("     case: %s" % json.dumps(f["case"])[:400])
        for l in f["traceback"][-3:]:
            print("       ", l)
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for n, e in errors:
        print("ERROR in %s: %s" % (n, e), file=sys.stderr)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d errors, %.1f s" %
          (prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
           len(viol), len(errors), time.time() - t0))
    if viol:
        return 1
    return 3 if errors else 0
