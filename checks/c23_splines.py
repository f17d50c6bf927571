import sys
from env import *
from fits import *
from scipy.interpolate import BSpline

RULE = ("Random strictly increasing knots (2 to 9, spacings over a factor 20, any offset), order 0 to 5, all spline models, borders and constructors. Oracles: pieces between the "
        "knots reproduce polynomials of the order, derivatives up to order-1 from both sides of each inner knot, rank and span against the truncated powers, "
        "de Boor's recursion of scipy for the basis splines. Non-trivial: order >= 1 and at least one inner knot.")


@st.composite
def layouts(draw, per=False):
    cls = draw(st.sampled_from(["SplinesModel", "BasicSplinesModel", "BSplinesModel"])) if not per else "BasicSplinesModel"
    order = draw(st.integers(0 if not per else 1, 5))
    nk = draw(st.integers(2 if not per else order + 2, 9 if not per else order + 7))
    how = draw(st.sampled_from(["knots", "knots", "list", "minmax", "xrange", "int", "copy"]))
    gaps = draw(st.lists(st.integers(1, 4), min_size=nk - 1, max_size=nk - 1)) if how == "int" else draw(st.lists(fl(0.15, 3), min_size=nk - 1, max_size=nk - 1))
    off = draw(st.integers(-6, 6)) if how == "int" else draw(fl(-8, 8))
    npar = order + nk - 1 if not per else nk - 1
    return dict(cls=cls, order=order, gaps=gaps, off=off, how=how, par=draw(st.lists(fl(-3, 3), min_size=npar, max_size=npar)),
                u=draw(st.lists(fl(0, 1, 4), min_size=1, max_size=12)), border=1 if per else 0, intx=draw(st.booleans()))


def build_model(c):
    kn = numpy.cumsum([c["off"]] + c["gaps"])
    how = c["how"]
    kw = dict(border=c["border"]) if c["border"] else {}
    cls = getattr(bf, c["cls"])
    n = len(kn)
    if how == "minmax":
        m = cls(nrknots=n, order=c["order"], min=float(kn[0]), max=float(kn[-1]), **kw)
        kn = numpy.linspace(kn[0], kn[-1], n)
    elif how == "xrange":
        m = cls(nrknots=n, order=c["order"], xrange=[float(kn[0]), float(kn[-1])], **kw)
        kn = numpy.linspace(kn[0], kn[-1], n)
    else:
        m = cls(knots=kn.tolist() if how == "list" else kn, order=c["order"], **kw)
        if how == "copy": m = m.copy()
    return m, A(kn)


def pieces(f, kn, order, what):
    """polynomial coefficients (in t = (x-mid)/half) of each piece; checks that they are polynomials"""
    out = []
    nn = order + 1
    t = numpy.cos(math.pi * (numpy.arange(nn) + 0.5) / nn)
    te = numpy.array([-0.97, -0.61, -0.2, 0.13, 0.55, 0.9])
    V = numpy.vander(t, nn, increasing=True)
    for a, b in zip(kn[:-1], kn[1:]):
        mid, half = (a + b) / 2, (b - a) / 2
        y = f(mid + half * t)
        co = numpy.linalg.solve(V, y)
        ye = numpy.vander(te, nn, increasing=True) @ co
        got = f(mid + half * te)
        s = 1 + numpy.max(abs(y))
        ok(numpy.all(abs(got - ye) < 1e-7 * s), "%s: not a polynomial of order %d between %r and %r: %s, expected %s" % (what, order, a, b, got.tolist(), ye.tolist()))
        out.append((co, half, s))
    return out


def deriv_at(co, half, side, k):
    p = numpy.polynomial.polynomial.polyder(co, k) if k else co
    return numpy.polynomial.polynomial.polyval(side, p) / half ** k


def smooth(pc, kn, order, what, periodic=False):
    pairs = list(zip(pc[:-1], pc[1:], kn[1:-1]))
    if periodic: pairs.append((pc[-1], pc[0], kn[0]))
    for (ca, ha, sa), (cb, hb, sb), k in pairs:
        for d in range(order):
            va, vb = deriv_at(ca, ha, 1.0, d), deriv_at(cb, hb, -1.0, d)
            s = (sa + sb) * (2.0 * order / min(ha, hb)) ** d
            ok(abs(va - vb) < 2e-7 * s, "%s: derivative %d jumps at knot %r: %r, %r" % (what, d, k, va, vb))


def trunc(x, kn, order):
    L = kn[-1] - kn[0]
    z = (x - kn[0]) / L
    cols = [z ** j for j in range(order + 1)]
    for k in kn[1:-1]:
        zz = (x - k) / L
        cols.append(numpy.where(x >= k, zz ** order if order else 1.0, 0.0))
    return numpy.array(cols).T


def grid(kn, order):
    t = numpy.cos(math.pi * (numpy.arange(order + 3) + 0.5) / (order + 3))[::-1]
    return numpy.concatenate([(a + b) / 2 + (b - a) / 2 * t for a, b in zip(kn[:-1], kn[1:])])


def spline(c):
    m, kn = build_model(c)
    order, n, nk = c["order"], c["cls"], len(kn)
    npar = order + nk - 1
    ok(m.npchain == npar, "%s has %d parameters, expected %d" % (n, m.npchain, npar))
    close(m.knots, kn, n + " knots")
    par = A(c["par"])
    f = lambda x: numpy.asarray(m.result(x, par), dtype=float)
    pc = pieces(f, kn, order, n)
    smooth(pc, kn, order, n)
    # span
    x = grid(kn, order)
    P = numpy.asarray(m.partial(x, numpy.zeros(npar)), dtype=float)
    ok(P.shape == (len(x), npar), "%s partial has shape %s" % (n, P.shape))
    T = trunc(x, kn, order)
    q, r = numpy.linalg.qr(T)
    sc = numpy.maximum(numpy.max(abs(P), axis=0), 1e-12)
    resid = P - q @ (q.T @ P)
    ok(numpy.all(numpy.max(abs(resid), axis=0) < 1e-6 * sc), "%s: basis functions outside the spline space (%s)" % (n, (numpy.max(abs(resid), axis=0) / sc).tolist()))
    if n == "SplinesModel" or True:
        # T in the span of P (full spline space)
        Ps = P / sc
        qq, rr = numpy.linalg.qr(Ps)
        ok(numpy.min(abs(numpy.diag(rr))) > 1e-12, "%s: basis functions are dependent" % n)
        if numpy.linalg.cond(Ps) < 1e7:
            res2 = T - Ps @ numpy.linalg.lstsq(Ps, T, rcond=None)[0]
            ok(numpy.max(abs(res2)) < 1e-6, "%s does not span all splines: residual %r" % (n, numpy.max(abs(res2))))
    close(f(x), P @ par, n + " result versus partials times parameters", 1e-9)
    if n != "SplinesModel":
        xe = numpy.sort(numpy.concatenate([kn[0] + A(c["u"]) * (kn[-1] - kn[0]), kn, x]))
        xe = numpy.clip(xe, kn[0], kn[-1])
        B = numpy.asarray(m.partial(xe, par))
        ok(B.shape == (len(xe), npar), "%s partial has shape %s" % (n, B.shape))
        tol = 1e-8 if n == "BSplinesModel" else 1e-6
        ok(B.min() > -tol, "%s: basis spline is negative: %r" % (n, B.min()))
        ok(numpy.all(abs(B.sum(axis=1) - 1) < tol), "%s: basis splines do not add up to 1: %s" % (n, B.sum(axis=1).tolist()))
        tt = numpy.concatenate([[kn[0]] * order, kn, [kn[-1]] * order])
        R = numpy.array([BSpline(tt, numpy.identity(npar)[k], order)(xe) for k in range(npar)]).T
        ok(numpy.all(abs(B - R) < tol), "%s: basis splines differ %r from those of de Boor" % (n, abs(B - R).max()))
        for k in range(npar):
            lo, hi = kn[max(0, k - order)], kn[min(nk - 1, k + 1)]
            out = (xe < lo) | (xe > hi)
            ok(numpy.all(abs(B[out, k]) < 1e-12), "%s: basis spline %d has values outside its support" % (n, k))
        one = numpy.asarray(m.partial(xe[1:2], par))
        close(one, B[1:2], n + " partial at one point")
        close(f(xe), R @ par, n + " result versus de Boor", 1e-6)
    else:
        # documented: polynomial before the second knot, extrapolating
        xo = kn[0] - A(c["u"]) * (kn[1] - kn[0])
        co, half, s = pc[0]
        tx = (xo - (kn[0] + kn[1]) / 2) / half
        close(f(xo), numpy.polynomial.polynomial.polyval(tx, co), n + " extrapolated at the low side", 1e-5, scale=10 * s)
    return dict(nontrivial=order >= 1 and nk > 2, features=[n, "order%d" % order, "knots%d" % nk, c["how"]])


def periodic(c):
    m, kn = build_model(c)
    order, nk = c["order"], len(kn)
    npar = nk - 1
    n = "BasicSplinesModel( periodic )"
    ok(m.npchain == npar, "%s has %d parameters, expected %d" % (n, m.npchain, npar))
    par = A(c["par"])
    f = lambda x: numpy.asarray(m.result(x, par), dtype=float)
    pc = pieces(f, kn, order, n)
    smooth(pc, kn, order, n, periodic=True)
    x = grid(kn, order)
    P = numpy.asarray(m.partial(x, par))
    xe = numpy.clip(numpy.sort(numpy.concatenate([kn[0] + A(c["u"]) * (kn[-1] - kn[0]), kn])), kn[0], kn[-1])
    B = numpy.asarray(m.partial(xe, par))
    ok(B.min() > -1e-6, "%s: basis spline is negative: %r" % (n, B.min()))
    ok(numpy.all(abs(B.sum(axis=1) - 1) < 1e-6), "%s: basis splines do not add up to 1: %s" % (n, B.sum(axis=1).tolist()))
    close(f(x), P @ par, n + " result versus partials", 1e-9)
    ok(numpy.linalg.matrix_rank(P, tol=1e-7) == npar, "%s: basis splines are dependent" % n)
    # local support : order + 1 (cyclic) intervals
    idx = numpy.clip(numpy.searchsorted(kn, x, side="right") - 1, 0, nk - 2)
    for k in range(npar):
        act = sorted(set(idx[abs(P[:, k]) > 1e-9]))
        ok(len(act) <= order + 1, "%s: basis spline %d lives on %d intervals" % (n, k, len(act)))
    # unique: a periodic B-spline on the repeated knots, in some order
    return dict(nontrivial=True, features=["order%d" % order, "knots%d" % nk, c["how"]])


def outside(c):
    c = dict(c, cls="BSplinesModel")
    m, kn = build_model(c)
    L = kn[-1] - kn[0]
    xs = kn[0] + A(c["u"]) * L
    for xb in (kn[0] - 0.01 * L, kn[-1] + 0.01 * L):
        try:
            m.result(numpy.append(xs, xb), A(c["par"]))
        except ValueError:
            continue
        fail("BSplinesModel accepts input outside its knots")
    return "outside"


if __name__ == "__main__":
    sys.exit(main("C23", [
        Sub("spline", layouts(), spline, 500, 12000),
        Sub("periodic", layouts(per=True), periodic, 200, 5000),
    ], RULE))
