import sys, math
from env import *
from fits import *
from scipy.integrate import quad
from scipy.optimize import brentq
from scipy.special import comb

RULE = ("values: every kernel x arguments (scalars, integer and float arrays of 1 to 3 dimensions, inside, at and outside the range) against an independent formula "
        "(cardinal B-splines for the convolved tophats), the even image, the squared argument and differences for partial(). "
        "numbers: quadrature, root and range of each kernel against its attributes (exhaustive over the kernels). "
        "Non-trivial: at least one argument strictly inside the range and not zero.")


def bspl(n, x):
    """cardinal B-spline of degree n, centered"""
    x = A(x)
    out = numpy.zeros(x.shape)
    for k in range(n + 2):
        out += (-1) ** k * comb(n + 1, k) * numpy.where(x + (n + 1) / 2 - k > 0, x + (n + 1) / 2 - k, 0.0) ** n
    return out / math.factorial(n)


def top(n):
    c = float(bspl(n, 0.0))
    return lambda x: numpy.where(abs(x) < (n + 1) / 2, bspl(n, -abs(x)) / c, 0.0)       # the left tail is the accurate one


REF = {
    "Biweight": lambda x: numpy.where(abs(x) < 1, (1 - x * x) ** 2, 0.0), "CosSquare": lambda x: numpy.where(abs(x) < 1, numpy.cos(math.pi * x / 2) ** 2, 0.0),
    "Cosine": lambda x: numpy.where(abs(x) < 1, numpy.cos(math.pi * x / 2), 0.0), "Gauss": lambda x: numpy.exp(-0.5 * x * x),
    "Huber": lambda x: 1 / numpy.maximum(abs(x), 1.0), "Lorentz": lambda x: 1 / (1 + x * x), "Parabola": lambda x: numpy.where(abs(x) < 1, 1 - x * x, 0.0),
    "Sinc": lambda x: numpy.sinc(x), "Triangle": lambda x: numpy.where(abs(x) < 1, 1 - abs(x), 0.0),
    "Tricube": lambda x: numpy.where(abs(x) < 1, (1 - abs(x) ** 3) ** 3, 0.0), "Triweight": lambda x: numpy.where(abs(x) < 1, (1 - x * x) ** 3, 0.0),
    "Uniform": lambda x: numpy.where(abs(x) < 1, 1.0, 0.0), "Tophat0": lambda x: numpy.where(abs(x) < 0.5, 1.0, 0.0),
}
for _n in range(1, 7): REF["Tophat%d" % _n] = top(_n)
RANGE = {k: 1.0 for k in REF}
RANGE.update({k: math.inf for k in ("Gauss", "Huber", "Lorentz", "Sinc")})
RANGE.update({"Tophat%d" % n: (n + 1) / 2 for n in range(7)})
JUMP = {"Uniform": [1.0], "Tophat0": [0.5]}
KINK = dict(Cosine=[1], Parabola=[1], Triangle=[0, 1], Tophat1=[0, 1], Huber=[1], Uniform=[1], Tophat0=[0.5])
TABLE = dict(Biweight=(16 / 15, 1.08, 1), CosSquare=(1, 1, 1), Cosine=(4 / math.pi, 1.33, 1), Gauss=(math.sqrt(2 * math.pi), None, math.inf), Huber=(math.inf, 4, math.inf),
             Lorentz=(math.pi, 2, math.inf), Parabola=(4 / 3, 1.41, 1), Sinc=(1, 1.21, math.inf), Triangle=(1, 1, 1), Tricube=(81 / 70, 1.18, 1),
             Triweight=(32 / 35, 0.91, 1), Uniform=(2, 2, 1), Tophat0=(1, 1, 0.5), Tophat1=(1, 1, 1), Tophat2=(4 / 3, 1.26, 1.5), Tophat3=(3 / 2, 1.44, 2.0), Tophat4=(192 / 115, 1.60, 2.5),
             Tophat5=(20 / 11, 1.73, 3.0), Tophat6=(11520 / 5887, 1.86, 3.5))


def mkk(name):
    return bf.Tophat(int(name[6:])) if name.startswith("Tophat") else getattr(bf, name)()


def cases():
    def sub(name):
        r = RANGE[name] if math.isfinite(RANGE[name]) else 3.0
        spec = st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 1e-9, 1e-3, r, r - 1e-6, r + 1e-6, 1e3, 40.0])
        val = st.one_of(fl(-1, 1, 3).map(lambda v: round(v * r, 5)), fl(-6, 6, 3), st.tuples(spec, st.sampled_from([-1, 1])).map(lambda t: t[0] * t[1]))
        return st.fixed_dictionaries(dict(kernel=st.just(name), x=st.lists(val, min_size=1, max_size=12), form=st.sampled_from(["arr", "arr", "scalar", "int", "nd", "view"]),
                                          split=st.integers(1, 3)))
    return st.sampled_from(sorted(REF)).flatmap(sub)


def values(c):
    name = c["kernel"]
    k = mkk(name)
    x = A(c["x"])
    form = c["form"]
    if form == "nd" and name in ["Tophat%d" % n for n in range(2, 7)]: form = "arr"          # 1-dimensional input only
    if form == "int": x = numpy.rint(x).astype(int)
    if form == "nd": x = numpy.resize(x, (c["split"], len(x)))
    if form == "view": x = numpy.repeat(x, 2)[::2]
    arg = x.flat[0] if form == "scalar" else x
    if form == "scalar": x = A([arg])
    keep = numpy.array(x)
    ref = REF[name](x.astype(float))
    R = RANGE[name]
    good = numpy.ones(x.shape, dtype=bool)
    for j in JUMP.get(name, []): good &= abs(abs(x) - j) > 1e-9
    for what, got in (("result", k.result(arg)), ("result of -x", k.result(-arg)), ("resultsq", k.resultsq(arg * arg))):
        got = numpy.asarray(got, dtype=float)
        if form == "scalar":
            ok(got.size == 1, "%s %s of a scalar has shape %s" % (name, what, got.shape))
            got = got.reshape(1)
        ok(got.shape == x.shape, "%s %s has shape %s" % (name, what, got.shape))
        g = good
        if what == "resultsq" and name in JUMP: g = good & (abs(abs(x) - JUMP[name][0]) > 1e-6)
        tol = 2e-7 if what == "resultsq" else 1e-9
        bad = g & ~(abs(got - ref) < tol)
        ok(not bad.any(), "%s: %s at %s is %s, expected %s" % (name, what, x[bad].tolist(), got[bad].tolist(), ref[bad].tolist()))
        if math.isfinite(R):
            ok(numpy.all(got[abs(x) > R * (1 + 1e-6)] == 0), "%s: %s is not zero outside the range" % (name, what))
    ok(numpy.array_equal(x, keep), "%s changes its argument" % name)
    # partial
    h = 1e-4
    smooth = numpy.ones(x.shape, dtype=bool)
    kinks = set(KINK.get(name, [])) | ({R} if math.isfinite(R) else set())
    for j in kinks: smooth &= abs(abs(x) - j) > 3 * h
    f = REF[name]
    xf = x.astype(float)
    num = (8 * (f(xf + h) - f(xf - h)) - (f(xf + 2 * h) - f(xf - 2 * h))) / (12 * h)
    got = numpy.asarray(k.partial(arg), dtype=float)
    if form == "scalar": got = got.reshape(1)
    ok(got.shape == x.shape, "%s partial has shape %s" % (name, got.shape))
    n = int(name[6:]) if name.startswith("Tophat") else 9
    tol = 1e-6 if n != 2 else 2e-3            # second derivative jumps between the pieces
    if name in ("Tricube",): tol = 1e-5
    bad = smooth & ~(abs(got - num) < tol)
    ok(not bad.any(), "%s: partial at %s is %s, expected %s" % (name, x[bad].tolist(), got[bad].tolist(), num[bad].tolist()))
    return dict(nontrivial=bool(numpy.any((abs(x) < R) & (x != 0))), features=[name, form])


def numbers(c):
    name = c["kernel"]
    k = mkk(name)
    I, W, R = TABLE[name]
    f = lambda u: float(numpy.asarray(k.result(float(u))).reshape(-1)[0])
    ok(k.range == R == RANGE[name], "%s: range %r, expected %r" % (name, k.range, R))
    ok(k.isBound() == math.isfinite(R), "%s: isBound %r" % (name, k.isBound()))
    ok(abs(f(0.0) - 1) < 1e-12, "%s is %r at zero" % (name, f(0.0)))
    if math.isfinite(R):
        ok(f(R * 0.999) > 0 and f(R * 1.0001) == 0, "%s: range %r is not where it becomes zero" % (name, R))
        pts = [j / 2 for j in range(int(2 * R) + 1)]
        num = 2 * sum(quad(f, a, b, epsabs=1e-12)[0] for a, b in zip(pts[:-1], pts[1:]))
    elif name == "Huber":
        num = math.inf
    elif name == "Sinc":
        from scipy.special import sici
        num = 2 * quad(f, 0, 50, limit=400)[0] + 2 * (math.pi / 2 - sici(50 * math.pi)[0]) / math.pi
    else:
        num = 2 * (quad(f, 0, 1)[0] + quad(f, 1, numpy.inf)[0])
    ok(num == k.integral or abs(num - k.integral) < 1e-6, "%s: integral %r, expected %r" % (name, k.integral, num))
    if name in JUMP: w = 2 * JUMP[name][0]
    elif name == "Huber": w = 4.0
    else: w = 2 * brentq(lambda u: f(u) - 0.5, 0, 1.3, xtol=1e-12)
    ok(abs(k.fwhm - w) < 2e-6, "%s: fwhm %r, expected %r" % (name, k.fwhm, w))
    if W is not None: ok(abs(k.fwhm - W) < 0.01, "%s: fwhm %r, table %r" % (name, k.fwhm, W))
    ok(len(k.name()) > 0 and isinstance(str(k), str), "%s has no name" % name)
    return name


if __name__ == "__main__":
    sys.exit(main("C24", [
        Enum("numbers", [dict(kernel=k) for k in sorted(REF)], numbers),
        Sub("values", cases(), values, 1500, 40000),
    ], RULE))
