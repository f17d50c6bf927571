"""linear problems for the fitter checks, with an independent solver"""
from catalog import *
from pbt import *

LINFIT = ["Fitter", "QRFitter"]


def part(d):
    k, a = d[0], d[1]
    if k == "poly": return bf.PolynomialModel(a)
    if k == "cheb": return bf.ChebyshevPolynomialModel(a)
    if k == "harm": return bf.HarmonicModel(a, period=5.3)
    if k == "power": return bf.PowerModel(a)
    if k == "sineamp": return bf.SineAmpModel(a)
    if k == "spl": return bf.SplinesModel(knots=[0, 1.5, 4], order=a)
    if k == "bspl": return bf.BSplinesModel(knots=[-0.1, 1.5, 4.1], order=a)
    if k == "fpoly": return bf.PolynomialModel(a, fixed={1: 0.75})
    if k == "const": return bf.ConstantModel(values=a)
    if k == "surf": return bf.PolySurfaceModel(a)
    raise ValueError(k)


def build(parts, br=0):
    m = part(parts[0])
    for p in parts[1:]:
        m.addModel(part(p))
    if br:
        m = bf.BracketModel(m)
    return m


LIN1 = st.one_of(
    st.tuples(st.just("poly"), st.integers(0, 3)), st.tuples(st.just("cheb"), st.integers(0, 3)),
    st.tuples(st.just("harm"), st.integers(1, 2)), st.tuples(st.just("power"), st.sampled_from([1, 2, 0.5])),
    st.tuples(st.just("sineamp"), st.sampled_from([0.3, 0.7])), st.tuples(st.just("spl"), st.integers(1, 3)),
    st.tuples(st.just("bspl"), st.integers(1, 3)), st.tuples(st.just("fpoly"), st.integers(1, 3)),
).map(list)
EXTRA = st.one_of(st.tuples(st.just("harm"), st.integers(1, 2)), st.tuples(st.just("power"), st.sampled_from([2, 0.5])),
                  st.tuples(st.just("sineamp"), st.sampled_from([0.3, 0.7])), st.tuples(st.just("const"), fl(-2, 2)),
                  st.tuples(st.just("fpoly"), st.just(1))).map(list)


@st.composite
def problem(draw, fits=1, minex=1, dims=True, keeps=True, norms=False):
    two = dims and draw(st.sampled_from([False, False, False, True]))
    if two:
        parts = [["surf", draw(st.integers(0, 2))]]
    else:
        parts = [draw(LIN1)] + ([draw(EXTRA)] if draw(st.booleans()) else [])
    m = build(parts)
    npar = m.npchain
    n = draw(st.integers(npar + minex, npar + 7))
    if two:
        x = draw(st.lists(st.tuples(fl(-2, 2), fl(-2, 2)).map(list), min_size=n, max_size=n, unique_by=tuple))
    else:
        x = draw(st.lists(fl(0.05, 3.95), min_size=n, max_size=n, unique=True))
    c = dict(parts=parts, br=draw(st.integers(0, 1)), x=x, fits=[])
    kp = st.dictionaries(st.integers(0, max(0, npar - 1)).map(str), fl(-3, 3), max_size=max(0, npar - 1), min_size=1) if npar > 1 else st.none()
    nk = st.one_of(st.none(), st.none(), kp) if keeps else st.none()
    c["keep"] = draw(nk)
    for i in range(draw(st.integers(1, fits))):
        wk = draw(st.sampled_from(["none", "none", "int", "float", "zero", "list", "scale"]))
        w = None
        if wk in ("float", "list"): w = draw(st.lists(fl(0.1, 4), min_size=n, max_size=n))
        if wk == "int": w = draw(st.lists(st.integers(1, 4), min_size=n, max_size=n))
        if wk == "zero": w = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
        if wk == "scale": w = draw(st.lists(st.sampled_from([0.01, 1.0, 100.0]), min_size=n, max_size=n))
        ak = draw(st.sampled_from(["none", "none", "scalar", "int", "array", "list"]))
        a = None if ak == "none" else draw(fl(0.2, 3)) if ak == "scalar" else draw(st.integers(1, 4)) if ak == "int" else \
            draw(st.lists(fl(0.2, 3), min_size=n, max_size=n))
        yk = draw(st.sampled_from(["float", "int", "list"]))
        y = draw(st.lists(st.integers(-9, 9) if yk == "int" else fl(-5, 5), min_size=n, max_size=n))
        c["fits"].append(dict(y=y, yk=yk, w=w, wk=wk, a=a, ak=ak, keep=draw(nk)))
    c["norm"] = []
    if norms and draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2))):
            c["norm"].append([draw(st.lists(fl(-2, 2), min_size=npar, max_size=npar)), draw(fl(-3, 3)), draw(fl(0.2, 5))])
    c["p0"] = [draw(fl(-2, 2)) for _ in range(npar)]
    return c


def kd(k):
    return None if k is None else {int(a): b for a, b in k.items()}


def arrays(f):
    """the arguments of one fit, as the user types them"""
    y = f["y"] if f["yk"] == "list" else numpy.asarray(f["y"], dtype=int if f["yk"] == "int" else float)
    w = f["w"]
    if w is not None and f["wk"] != "list":
        w = numpy.asarray(w, dtype=int if f["wk"] in ("int", "zero") else float)
    a = f["a"]
    if isinstance(a, list) and f["ak"] == "array":
        a = A(a)
    return y, w, a


class Ref:
    """independent weighted least squares"""
    def __init__(self, c, f, keep):
        m = build(c["parts"])
        self.x = A(c["x"])
        n = len(self.x)
        self.np = m.npchain
        self.off = m.result(self.x, numpy.zeros(self.np)) + numpy.zeros(n)
        self.D = numpy.array([m.result(self.x, numpy.identity(self.np)[k]) - self.off for k in range(self.np)]).T.reshape(n, self.np)
        self.y = A(f["y"])
        self.w = numpy.ones(n) if f["w"] is None else A(f["w"])
        self.a = numpy.ones(n) * (1.0 if f["a"] is None else A(f["a"]))
        self.fw = self.w / self.a ** 2
        self.keep = keep or {}
        self.fi = [k for k in range(self.np) if k not in self.keep]
        p = numpy.zeros(self.np)
        for k, v in self.keep.items():
            p[k] = v
        sw = numpy.sqrt(self.fw)
        M = self.D[:, self.fi] * sw[:, None]
        r = (self.y - self.off - self.D @ p) * sw
        for g, v, wt in c.get("norm", []):
            g = A(g)
            M = numpy.vstack((M, g[self.fi] * math.sqrt(wt)))
            r = numpy.append(r, (v - g @ p) * math.sqrt(wt))
        if self.fi:
            self.cond = numpy.linalg.cond(M)
            if not self.cond < 1e4:
                raise Skip("ill conditioned")
            p[self.fi] = numpy.linalg.lstsq(M, r, rcond=None)[0]
        self.p = p
        self.M = M
        self.H = M.T @ M
        self.res = self.y - self.off - self.D @ p
        self.chisq = numpy.sum(self.fw * self.res ** 2)
        if not self.chisq > 1e-6:
            raise Skip("exact fit")
        self.npfit = len(self.fi)
        self.sumw = numpy.sum(self.w)
        self.dof = self.sumw - self.npfit


def close(a, b, what, tol=1e-8, scale=None):
    a, b = A(a), A(b)
    ok(a.shape == b.shape, "%s: shape %s, expected %s" % (what, a.shape, b.shape))
    s = 1 + (numpy.max(numpy.abs(b)) if b.size else 0) if scale is None else scale
    ok(numpy.all(numpy.isfinite(a)) and numpy.all(numpy.abs(a - b) <= tol * s), "%s: got %s, expected %s" % (what, a.tolist(), b.tolist()))
