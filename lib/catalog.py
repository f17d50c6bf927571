"""Catalogue of every model of the package: how to make it, a generator for its
configuration, parameters and inputs, and an independent closed form where the
documentation states one.  Configurations are plain JSON."""
from env import *
import math
from scipy import special

PI = math.pi


def fl(lo, hi, dig=2):
    s = 10 ** dig
    return st.integers(int(round(lo * s)), int(round(hi * s))).map(lambda i: i / s)


def nz(lo, hi, dig=2):
    """positive or negative, absolute value in [lo,hi]"""
    return st.tuples(fl(lo, hi, dig), st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


def fls(lo, hi, n, dig=2):
    return st.lists(fl(lo, hi, dig), min_size=n, max_size=n)


def x1(lo=-3, hi=3, dig=2, lo_n=1, hi_n=7):
    return st.lists(fl(lo, hi, dig), min_size=lo_n, max_size=hi_n)


def x2(lo=-3, hi=3, dim=2, dig=2, lo_n=1, hi_n=6):
    return st.lists(st.lists(fl(lo, hi, dig), min_size=dim, max_size=dim), min_size=lo_n, max_size=hi_n)


def tup(*s):
    return st.tuples(*s).map(list)


class Spec:
    def __init__(self, name, make, cfg, npars, pars, xs, ref=None, linear=False, ndim=1, ndout=1,
                 partial=True, deriv=True, fixable=True, kink=None, copyable=True, compound=True, tol=1.0):
        self.name, self.make_, self.cfg, self.npars_, self.pars, self.xs = name, make, cfg, npars, pars, xs
        self.ref, self.linear, self.ndim_, self.ndout_ = ref, linear, ndim, ndout
        self.partial, self.deriv, self.fixable, self.kink = partial, deriv, fixable, kink
        self.copyable, self.compound, self.tol = copyable, compound, tol

    def make(self, cfg, **kw):
        return self.make_(cfg, **kw)

    def npars(self, cfg):
        return self.npars_(cfg) if callable(self.npars_) else self.npars_

    def ndim(self, cfg):
        return self.ndim_(cfg) if callable(self.ndim_) else self.ndim_

    def ndout(self, cfg):
        return self.ndout_(cfg) if callable(self.ndout_) else self.ndout_

    def case(self):
        """strategy: dict(m, cfg, p, x)"""
        def withcfg(c):
            return st.fixed_dictionaries(dict(m=st.just(self.name), cfg=st.just(c),
                                              p=self.pars(c), x=self.xs(c)))
        return self.cfg.flatmap(withcfg)


S = {}


def add(name, *a, **k):
    S[name] = Spec(name, *a, **k)


none = st.just({})
A = lambda x: numpy.asarray(x, dtype=float)

# ---- 1-d profile like models
add("Arctan", lambda c, **k: bf.ArctanModel(**k), none, 3, lambda c: tup(nz(0.1, 3), fl(-2, 2), nz(0.2, 3)),
    lambda c: x1(), ref=lambda c, x, p: p[0] * numpy.arctan(p[2] * (x - p[1])))
add("Exp", lambda c, **k: bf.ExpModel(**k), none, 2, lambda c: tup(nz(0.1, 3), nz(0.1, 1.5)), lambda c: x1(),
    ref=lambda c, x, p: p[0] * numpy.exp(p[1] * x))
add("ExpDecay", lambda c, **k: bf.ExpModel(decay=True, **k), none, 2, lambda c: tup(nz(0.1, 3), nz(0.1, 1.5)),
    lambda c: x1(), ref=lambda c, x, p: p[0] * numpy.exp(-p[1] * x))
add("Gauss", lambda c, **k: bf.GaussModel(**k), none, 3, lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(0.3, 3)),
    lambda c: x1(), ref=lambda c, x, p: p[0] * numpy.exp(-0.5 * ((x - p[1]) / p[2]) ** 2))
add("Lorentz", lambda c, **k: bf.LorentzModel(**k), none, 3, lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(0.3, 3)),
    lambda c: x1(), ref=lambda c, x, p: p[0] * p[2] ** 2 / ((x - p[1]) ** 2 + p[2] ** 2))
add("Logistic", lambda c, **k: bf.LogisticModel(**k), none, 3, lambda c: tup(nz(0.1, 3), fl(-2, 2), nz(0.3, 3)),
    lambda c: x1(), ref=lambda c, x, p: p[0] / (1 + numpy.exp((p[1] - x) / p[2])))
add("Etalon", lambda c, **k: bf.EtalonModel(**k), none, 4,
    lambda c: tup(nz(0.1, 3), fl(0.1, 3), fl(0.2, 2), fl(-1, 1)), lambda c: x1(),
    ref=lambda c, x, p: p[0] / (1 + p[1] * numpy.sin(PI * p[2] * x + p[3]) ** 2))
add("EtalonDrift", lambda c, **k: bf.EtalonDriftModel(**k), none, 5,
    lambda c: tup(nz(0.1, 3), fl(0.1, 2), fl(0.2, 1.5), fl(-1, 1), fl(-0.5, 0.5)), lambda c: x2(-2, 2), ndim=2,
    ref=lambda c, x, p: p[0] / (1 + (p[1] * numpy.sin(PI * (p[2] * x[:, 0] + p[3] + p[4] * x[:, 1]))) ** 2))
add("Sine", lambda c, **k: bf.SineModel(**k), none, 3, lambda c: tup(fl(0.1, 2), nz(0.1, 3), nz(0.1, 3)),
    lambda c: x1(), ref=lambda c, x, p: p[1] * numpy.cos(2 * PI * p[0] * x) + p[2] * numpy.sin(2 * PI * p[0] * x))
add("SinePhase", lambda c, **k: bf.SineModel(phase=True, **k), none, 3,
    lambda c: tup(nz(0.1, 3), fl(0.1, 2), fl(-3, 3)), lambda c: x1(),
    ref=lambda c, x, p: p[0] * numpy.sin(2 * PI * p[1] * x + p[2]))
add("SineDrift", lambda c, **k: bf.SineDriftModel(**k), none, 4,
    lambda c: tup(fl(0.1, 1.5), nz(0.1, 3), nz(0.1, 3), fl(-0.2, 0.2)), lambda c: x1(),
    ref=lambda c, x, p: (p[1] * numpy.cos(2 * PI * x * (p[0] + x * p[3])) +
                         p[2] * numpy.sin(2 * PI * x * (p[0] + x * p[3]))))
add("PowerLaw", lambda c, **k: bf.PowerLawModel(**k), none, 3,
    lambda c: tup(nz(0.1, 3), fl(-2, 0.5), fl(-2, 2.5)), lambda c: x1(0.6, 4),
    ref=lambda c, x, p: p[0] * (x - p[1]) ** p[2])
add("Voigt", lambda c, **k: bf.VoigtModel(**k), none, 4,
    lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(0.3, 2), fl(0.1, 2)), lambda c: x1(),
    ref=lambda c, x, p: p[0] * special.voigt_profile(x - p[1], p[2], p[3]) / special.voigt_profile(0.0, p[2], p[3]))
add("PseudoVoigt", lambda c, **k: bf.PseudoVoigtModel(**k), none, 4,
    lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(0.3, 2), fl(0.05, 0.95)), lambda c: x1(),
    ref=lambda c, x, p: (p[3] * p[0] * p[2] ** 2 / ((x - p[1]) ** 2 + p[2] ** 2) +
                         (1 - p[3]) * p[0] * numpy.exp(-0.5 * ((x - p[1]) / p[2]) ** 2)))


def _sincref(c, x, p):
    u = (x - p[1]) / p[2]
    return p[0] * numpy.sinc(u / PI)


add("Sinc", lambda c, **k: bf.SincModel(**k), none, 3, lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(0.3, 3)),
    lambda c: x1())     # the docs of model and kernel disagree by a factor pi in the width: see KernelModel
# ---- kernels
KERNELS = ["Biweight", "CosSquare", "Cosine", "Gauss", "Huber", "Lorentz", "Parabola", "Sinc", "Triangle", "Tricube",
           "Triweight", "Uniform"]


def kern(name):
    if name.startswith("Tophat"):
        return bf.Tophat(nconv=int(name[6:]))
    return getattr(bf, name)()


def kfun(name, u):
    """documented kernel shapes"""
    a = numpy.abs(u)
    inn = a < 1
    if name == "Biweight": return numpy.where(inn, (1 - u * u) ** 2, 0.0)
    if name == "CosSquare": return numpy.where(inn, numpy.cos(0.5 * PI * u) ** 2, 0.0)
    if name == "Cosine": return numpy.where(inn, numpy.cos(0.5 * PI * u), 0.0)
    if name == "Gauss": return numpy.exp(-0.5 * u * u)
    if name == "Huber": return numpy.where(inn, 1.0, 1 / numpy.maximum(a, 1e-300))
    if name == "Lorentz": return 1 / (1 + u * u)
    if name == "Parabola": return numpy.where(inn, 1 - u * u, 0.0)
    if name == "Sinc": return numpy.sinc(u)
    if name == "Triangle": return numpy.where(inn, 1 - a, 0.0)
    if name == "Tricube": return numpy.where(inn, (1 - a ** 3) ** 3, 0.0)
    if name == "Triweight": return numpy.where(inn, (1 - u * u) ** 3, 0.0)
    if name == "Uniform": return numpy.where(inn, 1.0, 0.0)
    if name.startswith("Tophat"):
        n = int(name[6:])
        if n == 0: return numpy.where(a < 0.5, 1.0, 0.0)
        # (n-fold autoconvolution of a unit box) scaled to 1 at 0 : cardinal B-spline
        from scipy.interpolate import BSpline
        t = numpy.arange(n + 2) - (n + 1) / 2.0
        b = BSpline.basis_element(t, extrapolate=False)
        v = numpy.nan_to_num(b(u))
        return v / b(0.0)
    raise KeyError(name)


def kedges(name):
    """u-positions where kernel or its slope jumps"""
    if name.startswith("Tophat"):
        n = int(name[6:])
        return [i - (n + 1) / 2.0 for i in range(n + 2)]
    if name in ("Gauss", "Lorentz", "Sinc"):
        return []
    e = [-1.0, 1.0]
    if name == "Triangle": e.append(0.0)
    return e


ALLK = KERNELS + ["Tophat0", "Tophat1", "Tophat2", "Tophat3", "Tophat4"]


def _kkink(c, x, p):
    u = (x - p[1]) / p[2]
    m = numpy.zeros(len(x), dtype=bool)
    for e in kedges(c["k"]):
        m |= numpy.abs(u - e) < 1e-3
    return m


add("Kernel", lambda c, **k: bf.KernelModel(kernel=kern(c["k"]), **k),
    st.fixed_dictionaries(dict(k=st.sampled_from(ALLK))), 3,
    lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(0.3, 3)), lambda c: x1(),
    ref=lambda c, x, p: p[0] * kfun(c["k"], (x - p[1]) / p[2]), kink=_kkink)
S["Sinc"].ref = lambda c, x, p: p[0] * kfun("Sinc", (x - p[1]) / p[2])

K2D = ["Biweight", "CosSquare", "Cosine", "Gauss", "Huber", "Lorentz", "Parabola", "Sinc", "Triangle", "Tricube",
       "Triweight", "Uniform", "Tophat0"]


def _uv(c, x, p):
    dx, dy = x[:, 0] - p[1], x[:, 1] - p[2]
    if c["s"] == 1:
        return dx / p[3], dy / p[3]
    if c["s"] == 2:
        return dx / p[3], dy / p[4]
    ca, sa = math.cos(p[5]), math.sin(p[5])
    return (dx * ca - dy * sa) / p[3], (dx * sa + dy * ca) / p[4]


def _k2ref(c, x, p):
    u, v = _uv(c, x, p)
    return p[0] * kfun(c["k"], numpy.hypot(u, v))


def _k2kink(c, x, p):
    u, v = _uv(c, x, p)
    r = numpy.hypot(u, v)
    m = r < 1e-3
    for e in kedges(c["k"]):
        m |= numpy.abs(r - e) < 1e-3
    return m


add("Kernel2d", lambda c, **k: bf.Kernel2dModel(kernel=kern(c["k"]), shape=c["s"], **k),
    st.fixed_dictionaries(dict(k=st.sampled_from(K2D), s=st.integers(1, 3))), lambda c: 3 + c["s"],
    lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(-2, 2), *[fl(0.4, 3)] * (1 if c["s"] == 1 else 2),
                  *[fl(-1.5, 1.5)] * (c["s"] == 3)), lambda c: x2(), ndim=2, ref=_k2ref, kink=_k2kink)

# ---- linear
deg = lambda lo=0, hi=5: st.fixed_dictionaries(dict(n=st.integers(lo, hi)))
add("Polynomial", lambda c, **k: bf.PolynomialModel(c["n"], **k), deg(), lambda c: c["n"] + 1,
    lambda c: fls(-3, 3, c["n"] + 1), lambda c: x1(), linear=True,
    ref=lambda c, x, p: sum(p[k] * x ** k for k in range(c["n"] + 1)))
add("PolynomialDynamic", lambda c, **k: bf.PolynomialDynamicModel(c["n"], **k), deg(), lambda c: c["n"] + 1,
    lambda c: fls(-3, 3, c["n"] + 1), lambda c: x1(), linear=True,
    ref=lambda c, x, p: sum(p[k] * x ** k for k in range(c["n"] + 1)))
add("Chebyshev", lambda c, **k: bf.ChebyshevPolynomialModel(c["n"], **k), deg(0, 6), lambda c: c["n"] + 1,
    lambda c: fls(-3, 3, c["n"] + 1), lambda c: x1(-1, 1), linear=True,
    ref=lambda c, x, p: numpy.polynomial.chebyshev.chebval(x, p))
add("Power", lambda c, **k: bf.PowerModel(c["e"], **k), st.fixed_dictionaries(dict(e=fl(-3, 3, 1))), 1,
    lambda c: fls(-3, 3, 1), lambda c: x1(0.2, 4), linear=True, ref=lambda c, x, p: p[0] * x ** c["e"])
_har = st.fixed_dictionaries(dict(n=st.integers(1, 4), period=fl(0.5, 4)))


def _harref(c, x, p):
    y = x / c["period"]
    r = 0 * x
    for j in range(1, c["n"] + 1):
        r = r + p[2 * j - 2] * numpy.cos(2 * PI * j * y) + p[2 * j - 1] * numpy.sin(2 * PI * j * y)
    return r


add("Harmonic", lambda c, **k: bf.HarmonicModel(c["n"], period=c["period"], **k), _har, lambda c: 2 * c["n"],
    lambda c: fls(-3, 3, 2 * c["n"]), lambda c: x1(), linear=True, ref=_harref)
add("HarmonicDynamic", lambda c, **k: bf.HarmonicDynamicModel(c["n"], period=c["period"], **k), _har,
    lambda c: 2 * c["n"], lambda c: fls(-3, 3, 2 * c["n"]), lambda c: x1(), linear=True, ref=_harref)
add("SineAmp", lambda c, **k: bf.SineAmpModel(c["f"], **k), st.fixed_dictionaries(dict(f=fl(0.1, 2))), 2,
    lambda c: fls(-3, 3, 2), lambda c: x1(), linear=True,
    ref=lambda c, x, p: p[0] * numpy.cos(2 * PI * c["f"] * x) + p[1] * numpy.sin(2 * PI * c["f"] * x))


def _psref(c, x, p):
    n = c["n"] + 1
    P = sum(p[k] * x[:, 1] ** k for k in range(n))
    Q = sum(p[n + k] * x[:, 1] ** k for k in range(n))
    return P * numpy.cos(2 * PI * c["f"] * x[:, 0]) + Q * numpy.sin(2 * PI * c["f"] * x[:, 0])


add("PolySineAmp", lambda c, **k: bf.PolySineAmpModel(c["n"], c["f"], **k),
    st.fixed_dictionaries(dict(n=st.integers(0, 3), f=fl(0.1, 1.5))), lambda c: 2 * c["n"] + 2,
    lambda c: fls(-3, 3, 2 * c["n"] + 2), lambda c: x2(-2, 2), linear=True, ndim=2, ref=_psref)


def _surfref(c, x, p):
    r, n = 0.0, 0
    for d in range(c["n"] + 1):
        for k in range(d + 1):
            r = r + p[n] * x[:, 0] ** (d - k) * x[:, 1] ** k
            n += 1
    return r + 0 * x[:, 0]


add("PolySurface", lambda c, **k: bf.PolySurfaceModel(c["n"], **k), deg(0, 4), lambda c: (c["n"] + 1) * (c["n"] + 2) // 2,
    lambda c: fls(-3, 3, (c["n"] + 1) * (c["n"] + 2) // 2), lambda c: x2(-2, 2), linear=True, ndim=2, ref=_surfref)


def _knots(lo=-3.0, hi=3.0, nmin=2, nmax=6):
    def mk(gaps):
        s = sum(gaps)
        k, out = 0, [lo]
        for g in gaps:
            k += g
            out.append(round(lo + (hi - lo) * k / s, 3))
        out[-1] = hi
        return out
    return st.lists(st.integers(1, 4), min_size=nmin - 1, max_size=nmax - 1).map(mk)


def _kn(c, x, p=None):
    m = numpy.zeros(len(x), dtype=bool)
    for k in c["knots"]:
        m |= numpy.abs(x - k) < 1e-3
    return m


_spl = st.fixed_dictionaries(dict(knots=_knots(), order=st.integers(1, 4)))
_np = lambda c: len(c["knots"]) + c["order"] - 1
add("Splines", lambda c, **k: bf.SplinesModel(knots=c["knots"], order=c["order"], **k), _spl, _np,
    lambda c: fls(-2, 2, _np(c)), lambda c: x1(-3, 3), linear=True, kink=_kn, tol=10.)
add("BasicSplines", lambda c, **k: bf.BasicSplinesModel(knots=c["knots"], order=c["order"], **k),
    st.fixed_dictionaries(dict(knots=_knots(), order=st.integers(1, 4))), _np,
    lambda c: fls(-2, 2, _np(c)), lambda c: x1(-3, 2.99), linear=True, kink=_kn, tol=10.)
add("BasicSplinesPeriodic", lambda c, **k: bf.BasicSplinesModel(knots=c["knots"], order=c["order"], border=1, **k),
    st.fixed_dictionaries(dict(knots=_knots(nmin=6, nmax=8), order=st.integers(1, 3))), lambda c: len(c["knots"]) - 1,
    lambda c: fls(-2, 2, len(c["knots"]) - 1), lambda c: x1(-3, 2.99), linear=True, kink=_kn, tol=10.)
add("BSplines", lambda c, **k: bf.BSplinesModel(knots=c["knots"], order=c["order"], **k), _spl, _np,
    lambda c: fls(-2, 2, _np(c)), lambda c: x1(-3, 2.99), linear=True, kink=_kn, fixable=False, tol=10.)
add("SineSpline", lambda c, **k: bf.SineSplineModel(c["f"], c["knots"], order=c["order"], **k),
    st.fixed_dictionaries(dict(knots=_knots(nmax=4), order=st.integers(1, 3), f=fl(0.1, 1))), lambda c: 2 * _np(c),
    lambda c: fls(-2, 2, 2 * _np(c)), lambda c: x1(-3, 3), linear=True, kink=_kn, tol=10.,
    ref=lambda c, x, p: (bf.SplinesModel(knots=c["knots"], order=c["order"]).result(x, p[:_np(c)]) *
                         numpy.cos(2 * PI * c["f"] * x) +
                         bf.SplinesModel(knots=c["knots"], order=c["order"]).result(x, p[_np(c):]) *
                         numpy.sin(2 * PI * c["f"] * x)))


def _ssdref(c, x, p):
    nd = c["degree"] + 1
    sm = bf.SplinesModel(knots=c["knots"], order=c["order"])
    xx = 2 * PI * x * sum(p[k] * x ** k for k in range(nd))
    return (sm.result(x, p[nd:nd + _np(c)]) * numpy.cos(xx) + sm.result(x, p[nd + _np(c):]) * numpy.sin(xx))


add("SineSplineDrift", lambda c, **k: bf.SineSplineDriftModel(c["knots"], order=c["order"], degree=c["degree"], **k),
    st.fixed_dictionaries(dict(knots=_knots(nmax=4), order=st.integers(1, 3), degree=st.integers(0, 2))),
    lambda c: 2 * _np(c) + c["degree"] + 1,
    lambda c: st.tuples(fls(-0.3, 0.3, c["degree"] + 1), fls(-2, 2, 2 * _np(c))).map(lambda t: t[0] + t[1]),
    lambda c: x1(-2, 2), kink=_kn, ref=_ssdref, tol=10.)


def _surfsplref(c, x, p):
    mx = bf.SplinesModel(knots=c["kx"], order=c["order"])
    my = bf.SplinesModel(knots=c["ky"], order=c["order"])
    px, py = mx.partial(x[:, 0], mx.parameters), my.partial(x[:, 1], my.parameters)
    r = 0.0
    n = 0
    for i in range(px.shape[1]):
        for j in range(py.shape[1]):
            r = r + p[n] * px[:, i] * py[:, j]
            n += 1
    return r


_ssn = lambda c: (len(c["kx"]) + c["order"] - 1) * (len(c["ky"]) + c["order"] - 1)
add("SurfaceSplines", lambda c, **k: bf.SurfaceSplinesModel([c["kx"], c["ky"]], order=c["order"], **k),
    st.fixed_dictionaries(dict(kx=_knots(nmax=3), ky=_knots(nmax=4), order=st.integers(1, 2))), _ssn,
    lambda c: fls(-1, 1, _ssn(c), 1), lambda c: x2(-2.9, 2.9), linear=True, ndim=2, deriv=True, tol=10.,
    kink=lambda c, x, p: _kn(dict(knots=c["kx"]), x[:, 0]) | _kn(dict(knots=c["ky"]), x[:, 1]))


def _fsref(c, x, p):
    u = c["n"] * (x - 0.0) / c["xhi"] + 0.5
    return sum(p[k] * kfun("Tophat%d" % c["nc"], u - k) for k in range(c["n"]))


def _fskink(c, x, p):
    u = c["n"] * x / c["xhi"] + 0.5
    return numpy.abs(2 * u - numpy.round(2 * u)) < 2e-3


add("FreeShape", lambda c, **k: bf.FreeShapeModel(c["n"], nconvolve=c["nc"], xlo=0.0, xhi=c["xhi"], **k),
    st.fixed_dictionaries(dict(n=st.integers(2, 6), nc=st.integers(0, 3), xhi=fl(2, 8, 1))), lambda c: c["n"],
    lambda c: fls(0, 3, c["n"]), lambda c: x1(0, 2), linear=True, ref=_fsref, fixable=False, kink=_fskink)


def _pade(c, x, p):
    n = c["num"] + 1
    return sum(p[k] * x ** k for k in range(n)) / (1 + sum(p[n + k] * x ** (k + 1) for k in range(c["den"])))


add("Pade", lambda c, **k: bf.PadeModel(c["num"], c["den"], **k),
    st.fixed_dictionaries(dict(num=st.integers(0, 3), den=st.integers(0, 3))),
    lambda c: c["num"] + c["den"] + 1,
    lambda c: st.tuples(fls(-2, 2, c["num"] + 1), fls(0.05, 1, c["den"])).map(lambda t: t[0] + t[1]),
    lambda c: x1(0, 3), ref=_pade, fixable=False)

# ---- constants, user supplied, wrapped
add("Constant", lambda c, **k: bf.ConstantModel(values=c["v"], **k), st.fixed_dictionaries(dict(v=fl(-3, 3))), 0,
    lambda c: st.just([]), lambda c: x1(), ref=lambda c, x, p: 0 * x + c["v"], fixable=False)


def _chirp(x, p):
    return p[0] * numpy.sin(p[1] * x + p[2] * x * x)


def _chirpp(x, p):
    part = numpy.ndarray((len(x), 3))
    a = p[1] * x + p[2] * x * x
    part[:, 0] = numpy.sin(a)
    part[:, 1] = p[0] * x * numpy.cos(a)
    part[:, 2] = p[0] * x * x * numpy.cos(a)
    return part


def _chirpd(x, p):
    return p[0] * numpy.cos(p[1] * x + p[2] * x * x) * (p[1] + 2 * p[2] * x)


add("User", lambda c, **k: bf.UserModel(3, _chirp, userPartial=_chirpp, userDeriv=_chirpd, userName="chirp", **k), none, 3,
    lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(-1, 1)), lambda c: x1(-2, 2), ref=lambda c, x, p: _chirp(x, p))
add("UserNumeric", lambda c, **k: bf.UserModel(3, _chirp, userName="chirp", **k), none, 3,
    lambda c: tup(nz(0.1, 3), fl(-2, 2), fl(-1, 1)), lambda c: x1(-2, 2), ref=lambda c, x, p: _chirp(x, p), tol=10.)


def _astro(c, **k):
    from astropy.modeling import models as am
    if c["a"] == "Gaussian1D":
        a = am.Gaussian1D(amplitude=1.0, mean=0.0, stddev=1.0)
    elif c["a"] == "Moffat1D":
        a = am.Moffat1D()
    else:
        a = am.Sine1D()
    return bf.AstropyModel(a, **k)


def _astroref(c, x, p):
    if c["a"] == "Gaussian1D":
        return p[0] * numpy.exp(-0.5 * ((x - p[1]) / p[2]) ** 2)
    if c["a"] == "Moffat1D":
        return p[0] * (1 + ((x - p[1]) / p[2]) ** 2) ** (-p[3])
    return p[0] * numpy.sin(2 * PI * (p[1] * x + p[2]))


add("Astropy", _astro, st.fixed_dictionaries(dict(a=st.sampled_from(["Gaussian1D", "Moffat1D", "Sine1D"]))),
    lambda c: 4 if c["a"] == "Moffat1D" else 3,
    lambda c: tup(nz(0.1, 3), fl(-1, 1), fl(0.4, 2), *[fl(0.6, 3)] * (c["a"] == "Moffat1D")), lambda c: x1(),
    ref=_astroref)

# ---- orbits
_orb = lambda c: tup(fl(0.0, 0.85), fl(0.2, 3), fl(0.5, 5), fl(0.1, 6))
add("RadialVelocity", lambda c, **k: bf.RadialVelocityModel(**k), none, 5,
    lambda c: tup(fl(0.0, 0.85), fl(0.2, 3), fl(0.5, 5), fl(0.1, 6), fl(0.1, 6)), lambda c: x1(0, 6), tol=10.)
add("StellarOrbit", lambda c, **k: bf.StellarOrbitModel(spherical=c["sph"], **k),
    st.fixed_dictionaries(dict(sph=st.booleans())), 7,
    lambda c: tup(fl(0.0, 0.85), fl(0.2, 3), fl(0.5, 5), fl(0.1, 6), fl(0.1, 1.4), fl(0.1, 3), fl(0.1, 6)),
    lambda c: x1(0, 6), ndout=2, tol=10., fixable=False)


def kepler_E(M, e):
    """independent solution of Kepler's equation by bisection"""
    M = numpy.asarray(M, dtype=float)
    lo, hi = M - e - 1e-9, M + e + 1e-9
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        f = mid - e * numpy.sin(mid) - M
        lo = numpy.where(f < 0, mid, lo)
        hi = numpy.where(f < 0, hi, mid)
    return 0.5 * (lo + hi)


def kepler_rv(x, p):
    E = kepler_E(2 * PI * x / p[2] - p[3], p[0])
    r = p[1] * (1 - p[0] * numpy.cos(E))
    v = numpy.arctan2(math.sqrt(1 - p[0] ** 2) * numpy.sin(E), numpy.cos(E) - p[0])
    return r, v


def _rvref(c, x, p):
    r, v = kepler_rv(x, p)
    return p[1] * (numpy.cos(v + p[4]) + p[0] * math.cos(p[4]))


S["RadialVelocity"].ref = _rvref


def _soref(c, x, p):
    r, v = kepler_rv(x, p)
    s, cc = numpy.sin(v + p[6]) * math.cos(p[4]), numpy.cos(v + p[6])
    th, rho = numpy.arctan2(s, cc) + p[5], r * numpy.hypot(s, cc)
    if c["sph"]:
        return numpy.stack([rho, th], axis=1)
    return numpy.stack([rho * numpy.sin(th), -rho * numpy.cos(th)], axis=1)


S["StellarOrbit"].ref = _soref


def _sokink(c, x, p):
    r, v = kepler_rv(x, p)
    s, cc = numpy.sin(v + p[6]) * math.cos(p[4]), numpy.cos(v + p[6])
    th = numpy.arctan2(s, cc)
    return (numpy.abs(numpy.abs(th) - PI) < 0.02) | (numpy.abs(numpy.abs(v) - PI) < 0.01)


S["StellarOrbit"].kink = _sokink
S["RadialVelocity"].kink = lambda c, x, p: numpy.abs(numpy.abs(kepler_rv(x, p)[1]) - PI) < 0.01


# ---- multi output
def _smref(c, x, p):
    x = x.reshape(-1, 1) if x.ndim == 1 else x
    ni, no = c["ndim"], c["ndout"]
    z = numpy.zeros((len(x), no))
    for k in range(ni):
        for n in range(no):
            z[:, n] += x[:, k] * p[_smidx(c, k, n)]
    if c["offset"]:
        z = z + A(p[ni * no:])
    if c["normed"]:
        if no == 1:
            z = 1 / (1 + numpy.exp(-z))
        else:
            e = numpy.exp(z - z.max(axis=1, keepdims=True))
            z = e / e.sum(axis=1, keepdims=True)
    return z if no > 1 else z[:, 0]


def _smidx(c, k, n):
    return n * c["ndim"] + k      # confirmed against NeuralNetUtilities.Connect


_smn = lambda c: c["ndim"] * c["ndout"] + (c["ndout"] if c["offset"] else 0)
add("SoftMax", lambda c, **k: bf.SoftMaxModel(ndim=c["ndim"], ndout=c["ndout"], offset=c["offset"],
                                              normed=c["normed"], **k),
    st.fixed_dictionaries(dict(ndim=st.integers(1, 3), ndout=st.integers(1, 3), offset=st.booleans(),
                               normed=st.booleans())), _smn, lambda c: fls(-2, 2, _smn(c)),
    lambda c: x1(-2, 2) if c["ndim"] == 1 else x2(-2, 2, dim=c["ndim"]), ndim=lambda c: c["ndim"],
    ndout=lambda c: c["ndout"], ref=_smref, fixable=False)


def _fbx(c):
    n = c["nteams"]
    return st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, n - 1)).map(
        lambda t: [t[0], (t[0] + t[1]) % n]), min_size=1, max_size=6)


def _fbpars(c):
    full = [fl(0.5, 10), fl(0.05, 0.95), fl(0.2, 1.8), fl(0.2, 1.8), fl(0.2, 1.8)][:c["cx"]]
    return tup(*(full * c["nteams"]))


def _fbref(c, x, p):
    cx = c["cx"]
    dflt = [0.0, 0.0, 1.0, 1.0, 1.0]
    T = [list(p[i * cx:(i + 1) * cx]) + dflt[cx:] for i in range(c["nteams"])]
    out = []
    for h, a in x:
        h, a = int(h), int(a)
        t1, t2 = T[h], T[a]
        m = t1[2] * t1[3] / t2[2]
        # complexity 5 has an (only in code documented) strategy e on attack and defence
        s1 = t1[0] * math.sqrt(m * t1[4]) * (1 - t2[1] ** (m * t2[4]))
        s2 = t2[0] * math.sqrt(t2[4] / m) * (1 - t1[1] ** (t1[4] / m))
        out.append([s1, s2])
    return A(out)


add("Football", lambda c, **k: bf.FootballModel(c["nteams"], complexity=c["cx"], **k),
    st.fixed_dictionaries(dict(nteams=st.integers(2, 4), cx=st.integers(1, 5))), lambda c: c["nteams"] * c["cx"],
    _fbpars, _fbx, ndim=2, ndout=2, ref=_fbref, deriv=False, fixable=False)


# ---- structured
def _prodref(c, x, p):
    return p[0] * numpy.exp(-0.5 * ((x[:, 0] - p[1]) / p[2]) ** 2) * sum(p[3 + k] * x[:, 1] ** k for k in range(c["n"] + 1))


add("Product", lambda c, **k: bf.ProductModel([bf.GaussModel(), bf.PolynomialModel(c["n"])], **k), deg(0, 2),
    lambda c: 4 + c["n"], lambda c: st.tuples(tup(nz(0.1, 3), fl(-2, 2), fl(0.3, 3)), fls(-2, 2, c["n"] + 1)).map(
        lambda t: t[0] + t[1]), lambda c: x2(-2, 2), ndim=2, ref=_prodref, fixable=False)


def combi_expand(c, p):
    """documented semantics: the first model gets free params; related ones follow with + or *"""
    nmp, nr = 3, c["nr"]
    add, mul = c.get("add") or {}, c.get("mul") or {}
    full = [[None] * nmp for _ in range(nr)]
    it = iter(p)
    full[0] = [next(it) for _ in range(nmp)]
    for r in range(1, nr):
        for k in range(nmp):
            ks = str(k)
            if ks in add:
                full[r][k] = full[0][k] + (add[ks][r] - add[ks][0])
            elif ks in mul:
                full[r][k] = full[0][k] * (mul[ks][r] / mul[ks][0])
            else:
                full[r][k] = next(it)
    return full


def _combiref(c, x, p):
    r = 0.0
    for a, b, w in combi_expand(c, p):
        r = r + a * numpy.exp(-0.5 * ((x - b) / w) ** 2)
    return r


def _combicfg():
    def mk(t):
        nr, rel, av, mv = t
        c = dict(nr=nr, add={}, mul={})
        for k in range(3):
            if rel[k] == 1 and k == 1:
                c["add"][str(k)] = [0.0] + av[k][:nr - 1]
            elif rel[k] == 2 and k != 1:
                c["mul"][str(k)] = [1.0] + mv[k][:nr - 1]
        return c
    return st.tuples(st.integers(2, 4), st.lists(st.integers(0, 2), min_size=3, max_size=3),
                     st.lists(fls(-1.5, 1.5, 3), min_size=3, max_size=3),
                     st.lists(fls(0.4, 2.5, 3), min_size=3, max_size=3)).map(mk)


def _combinp(c):
    return 3 + (c["nr"] - 1) * (3 - len(c["add"]) - len(c["mul"]))


def _combimake(c, **k):
    a = {int(q): v for q, v in c["add"].items()} or None
    m = {int(q): v for q, v in c["mul"].items()} or None
    return bf.CombiModel(bf.GaussModel(), c["nr"], addCombi=a, mulCombi=m, **k)


def _combipars(c):
    free = [k for k in range(3) if str(k) not in c["add"] and str(k) not in c["mul"]]
    g = [nz(0.1, 3), fl(-2, 2), fl(0.3, 3)]
    return tup(*(g + [g[k] for _ in range(c["nr"] - 1) for k in free]))


add("Combi", _combimake, _combicfg(), _combinp, _combipars, lambda c: x1(), ref=_combiref, fixable=False)


def _reppars(c):
    g = [nz(0.1, 3), fl(-2, 2), fl(0.3, 3)]
    same = c["same"]
    free = [k for k in range(3) if k not in same]
    return tup(*(g + [g[k] for _ in range(c["nr"] - 1) for k in free]))


def _repref(c, x, p):
    same = c["same"]
    q = list(p[:3])
    n = 3
    r = 0.0
    for i in range(c["nr"]):
        if i > 0:
            for k in range(3):
                if k not in same:
                    q[k] = p[n]
                    n += 1
        r = r + q[0] * numpy.exp(-0.5 * ((x - q[1]) / q[2]) ** 2)
    return r


add("Repeating", lambda c, **k: bf.RepeatingModel(c["nr"], bf.GaussModel(), same=c["same"] or None, **k),
    st.fixed_dictionaries(dict(nr=st.integers(1, 4), same=st.sampled_from([[], [0], [1], [2], [0, 2]]))),
    lambda c: 3 + (c["nr"] - 1) * (3 - len(c["same"])), _reppars, lambda c: x1(), ref=_repref, fixable=False)


def fresh(case, **kw):
    m = S[case["m"]].make(case["cfg"], **kw)
    return m


def xarr(case):
    a = numpy.asarray(case["x"], dtype=float)
    if case["m"] == "Football":
        a = a.astype(int)
    return a

# dynamic models and models that rearrange their parameters refuse fixed ones
for _n in ["PolynomialDynamic", "HarmonicDynamic", "PolySineAmp", "SineSpline", "SineSplineDrift", "SurfaceSplines"]:
    S[_n].fixable = False
