import sys
from env import *
from fits import *

RULE = ("Random eccentricities 0..0.99 (weighted towards both ends), axes, periods, phases, angles and times over many periods, with times placed at and near peri- and apastron. "
        "Oracles: an own bisection of Kepler's equation, the ellipse in Cartesian form, closed formulas of the anomalies' derivatives, equal areas, "
        "the velocity as difference quotient of the projected orbit, Thiele-Innes constants. Non-trivial: eccentricity above 0.05 and more than one time.")
PI = math.pi


@st.composite
def elements(draw, emax=0.99):
    e = draw(st.one_of(fl(0, emax), fl(0.8, 1).map(lambda t: emax * t), st.sampled_from([0.0, 0.3, 0.5, 0.9]).map(lambda t: min(t, emax))))
    return dict(e=e, a=draw(fl(0.2, 20)), P=draw(fl(0.2, 30)), T=draw(fl(-7, 7)), inc=draw(st.one_of(fl(0, PI), st.sampled_from([0.0, PI / 2 - 0.02, PI - 0.01, 0.7]))),
                Om=draw(fl(0, 2 * PI)), om=draw(fl(0, 2 * PI)),
                t=draw(st.lists(st.one_of(fl(-8, 8), st.builds(lambda k, d: k / 2 + d, st.integers(-6, 6), st.sampled_from([0.0, 1e-3, -1e-3, 0.02, -0.05]))), min_size=1, max_size=8)),
                s=draw(fl(0, 1)), Ms=draw(fl(0.1, 10)), par=draw(st.booleans()))


def truth(e, M):
    """E by bisection on the reduced mean anomaly, polished with Newton; returns E on the branch of M"""
    M = numpy.asarray(M, dtype=float)
    k = numpy.floor((M + PI) / (2 * PI))
    m = M - 2 * PI * k
    lo, hi = m - e - 1e-9, m + e + 1e-9
    for _ in range(70):
        mid = (lo + hi) / 2
        up = mid - e * numpy.sin(mid) > m
        hi = numpy.where(up, mid, hi); lo = numpy.where(up, lo, mid)
    return (lo + hi) / 2 + 2 * PI * k, m


def times(c):
    # c["t"] counts periods since the periastron passage
    return (A(c["t"]) * 2 * PI + c["T"]) * c["P"] / (2 * PI)


def cart(c, x):
    e, a = c["e"], c["a"]
    M = 2 * PI * x / c["P"] - c["T"]
    E, m = truth(e, M)
    b = a * math.sqrt(1 - e * e)
    return a * (numpy.cos(E) - e), b * numpy.sin(E), E, M


def angdiff(a, b):
    return (A(a) - A(b) + PI) % (2 * PI) - PI


def lab(c): return dict(nontrivial=c["e"] > 0.05 and len(c["t"]) > 1, features=["e>0.9" if c["e"] > 0.9 else "e>0.5" if c["e"] > 0.5 else "e small", "retrograde" if c["inc"] > PI / 2 else "prograde"])


def sens(c, M):
    """amplification of rounding in M into E"""
    return 1e-14 * (10 + abs(M)) / (1 - c["e"])


def anomaly(c):
    e, a, P, T = c["e"], c["a"], c["P"], c["T"]
    par, x = A([e, a, P, T]), times(c)
    X, Y, E, M = cart(c, x)
    k = bf.Kepplers2ndLaw()
    close(k.meanAnomaly(x, par), M, "mean anomaly", 1e-10, 1 + abs(M))
    tE = 1e-8 + 10 * sens(c, M)
    for name, lim in (("eccentricAnomaly", 1), ("eccentricAnomaly2", 1), ("eccentricAnomaly1", 0.85), ("eccentricAnomaly0", 0.6)):
        if e > lim: continue
        got = A(getattr(k, name)(x, par))
        ok(got.shape == x.shape, "%s: shape %s" % (name, got.shape))
        tol = tE if name != "eccentricAnomaly0" else tE + 5e-8
        ok(numpy.all(abs(got - e * numpy.sin(got) - M) < tol), "%s: does not solve Kepler's equation for e=%r, M=%s: %s, expected %s" % (name, e, M.tolist(), got.tolist(), E.tolist()))
        ok(numpy.all(abs(got - E) < tol / (1 - e)), "%s: %s, expected %s" % (name, got.tolist(), E.tolist()))
    r, v = k.radiusAndTrueAnomaly(x, par)
    r, v = A(r), A(v)
    tp = a * tE / (1 - e)
    ok(numpy.all(abs(r * numpy.cos(v) - X) < tp) and numpy.all(abs(r * numpy.sin(v) - Y) < tp),
       "position (%s, %s), expected (%s, %s) for e=%r" % ((r * numpy.cos(v)).tolist(), (r * numpy.sin(v)).tolist(), X.tolist(), Y.tolist(), e))
    close(r, a * (1 - e * e) / (1 + e * numpy.cos(v)), "radius of the ellipse", 1e-7 / (1 - e), a)
    r2, v2 = k.radiusAndTrueAnomaly(x + 3 * P, par)
    ok(numpy.all(abs(r2 - r) < 3 * tp) and numpy.all(abs(angdiff(v2, v)) < 3 * tE / (1 - e) ** 1.5), "orbit is not periodic in the period")
    r2, v2 = k.radiusAndTrueAnomaly(2 * (T * P / (2 * PI)) - x, par)
    ok(numpy.all(abs(r2 - r) < 3 * tp) and numpy.all(abs(angdiff(v2, -v)) < 3 * tE / (1 - e) ** 1.5), "orbit is not symmetric around periastron")
    return lab(c)


def apart(c):
    # away from the exact apastron, where the half-angle formulas of the code lose accuracy
    t = A(c["t"])
    d = abs((t + 0.5) % 1.0)
    d = numpy.minimum(d, 1 - d)
    return A(t[d > 1e-4])


def derivs(c):
    c = dict(c, t=apart(c).tolist())
    if not c["t"]: raise Skip("only at apastron")
    e, a, P, T = c["e"], c["a"], c["P"], c["T"]
    par, x = A([e, a, P, T]), times(c)
    k = bf.Kepplers2ndLaw()
    r, v = k.radiusAndTrueAnomaly(x, par)
    E, cE, sE = k.eccAnomaly, k.cosE, k.sinE
    q = math.sqrt(1 - e * e)
    dMx = 2 * PI / P
    cv, sv = numpy.cos(v), numpy.sin(v)
    dvM, drM = (1 + e * cv) ** 2 / q ** 3, a * e * sv / q
    tol = 1e-6 / (1 - e) ** 2
    s = 1 / (1 - e) ** 2
    dr, dv = k.drvdx(x, par, cE, sE)
    close(dr, drM * dMx, "dr/dx", tol, a * s * dMx)
    close(dv, dvM * dMx, "dv/dx", tol, s * dMx)
    # equal areas: the areal velocity is the area of the ellipse per period
    close(r * r * dv / 2, numpy.full(len(x), PI * a * a * q / P), "areal velocity", 1e-6 / (1 - e), PI * a * a / P)
    drde, drda, drdP, drdp, dvde, dvdP, dvdp = k.drvdpar(x, par, E, cE, sE)
    dMP = -2 * PI * x / P ** 2
    sm = 1 + numpy.max(abs(dMP))
    close(drda, r / a, "dr/da", tol, 1)
    close(drde, -a * cv, "dr/de", tol, a * s)
    close(drdP, drM * dMP, "dr/dP", tol, a * s * sm)
    close(drdp, -drM, "dr/dphase", tol, a * s)
    close(dvde, sv * (2 + e * cv) / q ** 2, "dv/de", tol, s)
    close(dvdP, dvM * dMP, "dv/dP", tol, s * sm)
    close(dvdp, -dvM, "dv/dphase", tol, s)
    ok(abs(k.dMdx(x, par) - dMx).max() < 1e-10 * dMx, "dM/dx")
    return lab(c)


def rv(c):
    e, P, T, w = c["e"], c["P"], c["T"], c["om"]
    if e > 0.95: raise Skip("eccentricity")
    K, x = c["a"], times(c)
    par = A([e, K, P, T, w])
    m = bf.RadialVelocityModel()
    names = m.parNames
    ok(m.npchain == 5 and "eccen" in names[0] and "ampl" in names[1] and "period" in names[2], "parameter names %s" % names)
    got = A(m.result(x, par))
    # the orbit with a = K P sqrt(1-e^2) / 2 pi along the line of sight
    a = K * P * math.sqrt(1 - e * e) / (2 * PI)
    cc = dict(c, a=a)
    def z(t):
        X, Y, _, _ = cart(cc, t)
        return X * math.sin(w) + Y * math.cos(w)
    h = P * 2e-4 * (1 - e) ** 1.5
    vel = (8 * (z(x + h) - z(x - h)) - (z(x + 2 * h) - z(x - 2 * h))) / (12 * h)
    ok(numpy.all(abs(got - vel) < 1e-5 * K / (1 - e)), "radial velocity %s is not that of the orbit, %s (e=%r)" % (got.tolist(), vel.tolist(), e))
    close(m.result(x - 2 * P, par), got, "radial velocity one period later", 1e-6 / (1 - e) ** 2, K)
    n = 4096
    g = A(m.result((numpy.arange(n) + c["s"]) * P / n, par))
    if e < 0.9: ok(abs(g.mean()) < 1e-5 * K, "mean velocity over a period is %r" % g.mean())
    if e < 0.9: close((g.max() - g.min()) / 2, K, "velocity amplitude", 1e-3, K)
    m.parameters = par
    close(m.semimajoraxis, a, "semimajor axis", 1e-9, a)
    exp = 4.91e-3 * c["Ms"] ** (2 / 3) * K * P ** (1 / 3) * math.sqrt(1 - e * e)
    close(m.getMsini(c["Ms"]), exp, "minimum mass", 1e-9, exp)
    c2 = m.copy()
    close(c2.result(x, par), got, "copied model", 1e-12, K)
    return lab(c)


def sky(c, x):
    """Thiele-Innes: north and east of the projected orbit"""
    X, Y, _, _ = cart(c, x)
    X, Y = X / c["a"], Y / c["a"]
    a, i, O, o = c["a"], c["inc"], c["Om"], c["om"]
    co, so, cO, sO, ci = math.cos(o), math.sin(o), math.cos(O), math.sin(O), math.cos(i)
    A_ = a * (co * cO - so * sO * ci); B = a * (co * sO + so * cO * ci)
    F = a * (-so * cO - co * sO * ci); G = a * (-so * sO + co * cO * ci)
    return A_ * X + F * Y, B * X + G * Y


def orbit(c):
    e, a = c["e"], c["a"]
    if e > 0.95: raise Skip("eccentricity")
    c = dict(c, t=apart(c).tolist())
    if not c["t"]: raise Skip("only at apastron")
    x = times(c)
    par = A([e, a, c["P"], c["T"], c["inc"], c["Om"], c["om"]])
    N, Ea = sky(c, x)
    ms, mr = bf.StellarOrbitModel(), bf.StellarOrbitModel(spherical=False)
    if c["par"]: ms, mr = ms.copy(), mr.copy()
    rp, xy = A(ms.result(x, par)), A(mr.result(x, par))
    ok(rp.shape == xy.shape == (len(x), 2), "output shapes %s %s" % (rp.shape, xy.shape))
    t = 1e-6 / (1 - e)
    close(xy[:, 0], Ea, "offset east", t, a)
    close(xy[:, 1], -N, "minus offset north", t, a)
    close(rp[:, 0], numpy.hypot(N, Ea), "separation", t, a)
    far = numpy.hypot(N, Ea) > 1e-3 * a
    ok(numpy.all(abs(angdiff(rp[:, 1], numpy.arctan2(Ea, N)))[far] < 1e-3 * t * 1e3 * (a / numpy.hypot(N, Ea))[far]),
       "position angle %s, expected %s" % (rp[:, 1].tolist(), numpy.arctan2(Ea, N).tolist()))
    close(ms.toRect(rp), xy, "toRect", 1e-9 + t, a)
    back = A(ms.toSpher(xy))
    close(back[:, 0], rp[:, 0], "toSpher separation", 1e-9 + t, a)
    ok(numpy.all(abs(angdiff(back[:, 1], rp[:, 1]))[far] < 1e-3), "toSpher position angle")
    if abs(math.sin(c["inc"])) < 1e-9:
        X, Y, _, _ = cart(c, x)
        close(rp[:, 0], numpy.hypot(X, Y), "separation of the face-on orbit", t, a)
    # derivatives against differences of the Thiele-Innes orbit
    h = c["P"] * 2e-4 * (1 - e) ** 1.5
    def xy0(cc, xx):
        n, ea = sky(cc, xx)
        return numpy.array([ea, -n]).T
    d = (8 * (xy0(c, x + h) - xy0(c, x - h)) - (xy0(c, x + 2 * h) - xy0(c, x - 2 * h))) / (12 * h)
    vs = a / c["P"] / (1 - e)
    edge = abs(math.cos(c["inc"])) > 0.01
    if edge:
        close(mr.derivative(x, par), d, "velocity on the sky", 1e-4 / (1 - e), 6 * vs)
    ds = A(ms.derivative(x, par))
    rho = numpy.hypot(N, Ea)
    g = rho > 0.02 * a
    if edge and g.any():
        xx, yy = xy[g, 0], xy[g, 1]
        close(ds[g, 0], (xx * d[g, 0] + yy * d[g, 1]) / rho[g], "radial motion", 1e-3 / (1 - e), 6 * vs)
        # theta = atan2(east, north), x = east, y = -north
        close(ds[g, 1] * rho[g], (-yy * d[g, 0] + xx * d[g, 1]) / rho[g], "angular motion", 1e-3 / (1 - e), 6 * vs)
    names = ["e", "a", "P", "T", "inc", "Om", "om"]
    if 0.01 < e < 0.9 and edge:
        pt = mr.partial(x, par)
        ok(len(pt) == 2, "two partials")
        for k, nm in enumerate(names):
            h = 1e-5 * dict(e=1, a=a, P=c["P"] ).get(nm, 1) * (1 - e) ** 2
            f = lambda s: xy0(dict(c, **{nm: c[nm] + s * h}), x)
            d = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
            sc = (a + numpy.max(abs(d))) / (1 - e) ** 2
            close(A(pt[0])[:, k], d[:, 0], "partial of x to " + nm, 1e-4, sc)
            close(A(pt[1])[:, k], d[:, 1], "partial of y to " + nm, 1e-4, sc)
    return lab(c)


sys.exit(main("C26", [Sub("anomaly", elements(), anomaly, 700, 60000), Sub("derivs", elements(), derivs, 400, 30000),
                      Sub("rv", elements(), rv, 400, 30000), Sub("orbit", elements(), orbit, 500, 30000)], RULE))
