from catalog import *
from pbt import *

RULE = ("One generator per model class: constructor configuration, parameters in the documented domain, 1..7 input "
        "points. Non-trivial: the reference is finite and not constant zero; labelled per configuration class.")


def discontinuous(case):
    c = case["cfg"]
    return case["m"] in ("Kernel", "Kernel2d") and c["k"] in ("Uniform", "Tophat0") or \
        case["m"] == "FreeShape" and c["nc"] == 0


def close(r, q, case, what):
    ok(numpy.shape(r) == numpy.shape(q), "%s: shape %s, expected %s" % (what, numpy.shape(r), numpy.shape(q)))
    r, q = numpy.asarray(r, dtype=float), numpy.asarray(q, dtype=float)
    tol = 1e-8 * (1 + numpy.max(numpy.abs(q)) if q.size else 1)
    if case["m"] in ("RadialVelocity", "StellarOrbit"):
        tol = 1e-5 * (1 + numpy.max(numpy.abs(q)))
    if case["m"].startswith("Kernel") and case["cfg"]["k"].startswith("Tophat"):
        tol = 1e-6 * (1 + numpy.max(numpy.abs(q)))
    if case["m"] == "StellarOrbit" and case["cfg"]["sph"]:
        d = r - q
        d[:, 1] = (d[:, 1] + PI) % (2 * PI) - PI
        r = q + d
    bad = ~(numpy.abs(r - q) <= tol)
    ok(not bad.any(), lambda: "")  if False else None
    if bad.any():
        fail("%s: got %s expected %s" % (what, r.tolist(), q.tolist()))


def run(case):
    s = S[case["m"]]
    cfg, x, p = case["cfg"], xarr(case), A(case["p"])
    if s.kink is not None and (discontinuous(case) or case["m"] == "StellarOrbit"):
        keep = ~s.kink(cfg, x, p)
        if not keep.any():
            raise Skip("all points on an edge")
        x = x[keep]
    m = s.make(cfg)
    ok(m.npchain == len(p), "number of parameters %d, expected %d" % (m.npchain, len(p)))
    ref = s.ref(cfg, x, p)
    if not numpy.all(numpy.isfinite(ref)):
        raise Skip("reference not finite")
    x0 = x.copy()
    r = m.result(x, p.copy())
    close(r, ref, case, "result")
    ok(numpy.array_equal(x, x0), "input data changed by result()")
    # history independence: evaluate elsewhere, set parameters, evaluate again
    if len(x) > 1:
        rev = x[::-1].copy()
        close(m.result(rev, p.copy()), ref[::-1], case, "result of reversed input")
        close(m.result(x[:1], p.copy()), ref[:1], case, "result of a single point")
    try:
        m.partial(x, p.copy())
    except Exception:
        pass            # C02 decides about partials
    close(m.result(x, p.copy()), ref, case, "result, second time")
    m.parameters = p.copy()
    close(m(x), ref, case, "call with the stored parameters")
    ok(numpy.allclose(m.parameters, p), "evaluation changed the stored parameters")
    return "one-point" if len(x) == 1 else "array"


def fullkernel(case):
    return run(case)


subs = [Sub(n, s.case(), run, quick=250 if s.npars_ != 0 else 40) for n, s in S.items() if s.ref is not None]
for k in ALLK:
    c = st.fixed_dictionaries(dict(m=st.just("Kernel"), cfg=st.just(dict(k=k)), p=S["Kernel"].pars(dict(k=k)),
                                   x=x1(lo_n=3)))
    subs.append(Sub("Kernel-" + k, c, run, quick=60))
for k in K2D:
    for sh in (1, 2, 3):
        cc = dict(k=k, s=sh)
        c = st.fixed_dictionaries(dict(m=st.just("Kernel2d"), cfg=st.just(cc), p=S["Kernel2d"].pars(cc),
                                       x=x2(lo_n=3)))
        subs.append(Sub("Kernel2d-%s-%d" % (k, sh), c, run, quick=50))


# ---- default parameters: documented initial values
DEFAULTS = {
    "Arctan": [2 / PI, 0, 1], "Etalon": [1, 1, 1, 0], "EtalonDrift": [1, 1, 1, 0, 0], "Exp": [1, -1], "ExpDecay": [1, 1],
    "Gauss": [1, 0, 1], "Lorentz": [1 / PI, 0, 1], "Logistic": [1, 0, 1], "PowerLaw": [1, 0, 1], "Sine": [1, 1, 1],
    "SinePhase": [1, 1, 0], "SineDrift": [1, 1, 1, 0], "Voigt": [1, 0, 1, 1], "PseudoVoigt": [1, 0, 1, 0.5],
    "RadialVelocity": [0, 1, 1, 0, 0], "Sinc": [1, 0, 1]}


def defaults(case):
    m = S[case["m"]].make({})
    ok(numpy.allclose(m.parameters, DEFAULTS[case["m"]], atol=1e-9),
       "initial parameters %s, documented %s" % (m.parameters, DEFAULTS[case["m"]]))
    return "defaults"




def forms(case):
    """integer arrays, lists and single points give the same as a float array; rows do not influence each other"""
    s = S[case["m"]]
    cfg, p = case["cfg"], A(case["p"])
    m = s.make(cfg)
    xf = numpy.round(xarr(case))
    if case["m"] in ("BSplines", "BasicSplines", "BasicSplinesPeriodic"):
        xf = numpy.clip(xf, -2, 2)
    if case["m"] == "FreeShape":
        xf = numpy.clip(xf, 0, 1)
    xi = xf.astype(int)
    with numpy.errstate(all="ignore"):
        r = A(m.result(xf, p.copy()))
        if not numpy.all(numpy.isfinite(r)):
            raise Skip("not finite")
        tol = (1e-5 if case["m"] in ("RadialVelocity", "StellarOrbit") else 1e-9) * (1 + numpy.max(numpy.abs(r)))

        def same(q, exp, what):
            q = A(q)
            ok(q.shape == exp.shape and numpy.all(numpy.abs(q - exp) <= tol), "%s: %s gives %s, expected %s" %
               (case["m"], what, q.tolist(), exp.tolist()))
        same(m.result(xi, p.copy()), r, "integer input")
        same(m.result(xf.tolist(), p.copy()), r, "list input")
        if case["m"] not in ("Decision",):
            for k in range(len(xf)):
                same(A(m.result(xf[k:k + 1], p.copy()))[0], r[k], "point %d on its own" % k)
        perm = numpy.argsort(numpy.sin(17 * numpy.arange(len(xf))))
        same(m.result(xf[perm], p.copy()), r[perm], "shuffled input")
        if s.partial and len(p):
            pf, pi_ = m.partial(xf, p.copy()), m.partial(xi, p.copy())
            for o, (a_, b_) in enumerate(zip(pf, pi_) if isinstance(pf, (list, tuple)) else [(pf, pi_)]):
                if numpy.all(numpy.isfinite(a_)):
                    ok(numpy.allclose(a_, b_, rtol=1e-9, atol=1e-9 * (1 + numpy.max(numpy.abs(a_)))),
                       "%s: partial at integer input %s, at the same float input %s" % (case["m"], A(b_).tolist(), A(a_).tolist()))
        if s.deriv:
            df, di = m.derivative(xf, p.copy()), m.derivative(xi, p.copy())
            if numpy.all(numpy.isfinite(A(df))):
                ok(numpy.allclose(A(df), A(di), rtol=1e-7, atol=1e-7 * (1 + numpy.max(numpy.abs(A(df))))),
                   "%s: derivative at integer input %s, at the same float input %s" % (case["m"], A(di).tolist(), A(df).tolist()))
    return "forms" if len(xf) > 1 else None


subs += [Sub(n + "-forms", s.case(), forms, quick=25) for n, s in S.items()]
subs.append(Enum("documented-defaults", [dict(m=k) for k in DEFAULTS], defaults))

if __name__ == "__main__":
    sys.exit(main("C01", subs, RULE))
