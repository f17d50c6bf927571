"""generated priors, shared by several checks"""
from catalog import *


def num(v):
    return None if v is None else float(v)


def pdesc(p):
    if p is None:
        return None
    d = dict(t=type(p).__name__, lo=num(p.lowLimit), hi=num(p.highLimit), circ=bool(p.circular), s=str(p),
             bound=bool(p.isBound()))
    for a in ("center", "scale"):
        if a in p.__dict__:
            d[a] = num(getattr(p, a))
    for u in (0.21, 0.77):
        try:
            v = float(p.unit2Domain(u))
            d["u%s" % u] = v if math.isfinite(v) else str(v)
        except Exception as e:
            d["u%s" % u] = type(e).__name__
    v = d["u0.77"]
    if isinstance(v, float):
        try:
            d["r"] = num(p.result(v))
        except Exception as e:
            d["r"] = type(e).__name__
    return d


PRIORS = ["Uniform", "UniformNone", "Jeffreys", "Gauss", "GaussLim", "Laplace", "Cauchy", "Exponential", "Circular", "GaussCirc", "Free"]


def priorcase():
    return st.fixed_dictionaries(dict(t=st.sampled_from(PRIORS), a=fl(-2, 2), b=fl(0.2, 3)))


def mkprior(c):
    a, b = c["a"], c["b"]
    t = c["t"]
    if t == "Uniform": return bf.UniformPrior(limits=[a, a + b])
    if t == "UniformNone": return bf.UniformPrior(limits=[a, a + 10 * b])
    if t == "Jeffreys": return bf.JeffreysPrior(limits=[b, 4 * b])
    if t == "Gauss": return bf.GaussPrior(center=a, scale=b)
    if t == "GaussLim": return bf.GaussPrior(center=a, scale=b, limits=[a - b, a + 2 * b])
    if t == "Laplace": return bf.LaplacePrior(center=a, scale=b)
    if t == "Cauchy": return bf.CauchyPrior(center=a, scale=b)
    if t == "Exponential": return bf.ExponentialPrior(scale=b)
    if t == "Circular": return bf.CircularUniformPrior(limits=[a, a + b])
    if t == "GaussCirc": return bf.GaussPrior(center=a, scale=b, circular=6 * b)
    return bf.UniformPrior()


