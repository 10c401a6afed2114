"""C25: flux surfaces and safety factor.

The reference finds the first crossing along each ray by a fine scan and
bisection on the equilibrium's flux, and integrates the field line pitch with
900 points.  Enumerated: configurations, grids, signs, limited and diverted
plasmas, numbers of points (including those for which an angle falls on the
X-point), surfaces, and all forms and orders of requests.
"""

import itertools
import math
import numpy as np
from mc.core import CheckDef, Section, Violation, Inconclusive
from mc import eqs, ref

_cache = {}

WALLS = {None: None, "in": (0.72, 1.9, -0.95, 0.95), "out": (0.25, 1.33, -0.95, 0.95), "far": (0.25, 1.75, -0.95, 0.95)}


def equilibrium(conf, grid, sign, wall, Z0=0.0, sF=None, shift=0.0):
    k = (conf, grid, sign, wall, Z0, sF, shift)
    if k not in _cache:
        w = eqs.rectangle(*WALLS[wall]) if WALLS[wall] else None
        c = "lower" if grid == "tight" else conf
        eq = eqs.scripted(c, grid, sign=sign, wall=w, limited=w is not None, Z0=Z0, mirror=conf == "upper" and grid == "tight", shift=shift,
                          prof=None if sF is None else eqs.StubProfile(f0=2.0 * sF, df=0.2 * sF))
        if eq.psi_bndry is None:
            raise Inconclusive("no boundary")
        _cache[k] = eq
    return _cache[k]


class Map:
    """Normalised flux of the equilibrium and rays from the axis"""

    def __init__(self, eq):
        from scipy.interpolate import RectBivariateSpline
        from freegs import critical

        self.eq = eq
        psi = eq.psi()
        opt, self.xpt = critical.find_critical(eq.R, eq.Z, psi)
        self.o = tuple(float(x) for x in opt[0])
        self.f = RectBivariateSpline(eq.R_1D, eq.Z_1D, (psi - self.o[2]) / (eq.psi_bndry - self.o[2]))

    def at(self, r, z):
        return self.f(r, z, grid=False)

    def rays(self, th, n=400):
        eq, o = self.eq, self.o
        s, c = np.sin(th), np.cos(th)
        with np.errstate(all="ignore"):
            lr = np.where(s > 1e-12, (eq.Rmax - o[0]) / s, np.where(s < -1e-12, (eq.Rmin - o[0]) / s, np.inf))
            lz = np.where(c > 1e-12, (eq.Zmax - o[1]) / c, np.where(c < -1e-12, (eq.Zmin - o[1]) / c, np.inf))
        L = np.minimum(lr, lz)
        t = np.linspace(0, 1, n)[:, None] * L
        return t, self.at(o[0] + t * s, o[1] + t * c), s, c

    def surface(self, psn, th):
        o = self.o
        t, v, s, c = self.rays(th)
        i = np.argmax(v > psn, axis=0)
        ok = v.max(axis=0) > psn
        k = np.arange(len(th))
        a, b = t[np.maximum(i - 1, 0), k], t[i, k]
        for _ in range(48):
            m = 0.5 * (a + b)
            h = self.at(o[0] + m * s, o[1] + m * c) > psn
            b = np.where(h, m, b)
            a = np.where(h, a, m)
        m = 0.5 * (a + b)
        return o[0] + m * s, o[1] + m * c, ok

    def q(self, psn, n=900):
        eq = self.eq
        th = np.arange(n) * 2 * np.pi / n + 1e-3
        r, z, ok = self.surface(psn, th)
        if not ok.all():
            return None
        dr = (np.roll(r, -1) - np.roll(r, 1)) / 2
        dz = (np.roll(z, -1) - np.roll(z, 1)) / 2
        # poloidal field from the flux: grad psi / R
        sc = eq.psi_bndry - self.o[2]
        B = np.hypot(self.f(r, z, dx=1, grid=False), self.f(r, z, dy=1, grid=False)) * abs(sc) / r
        F = float(np.ravel(eq.fpol(psn))[0])
        return float(np.sum(F / (r * r * B) * np.hypot(dr, dz)) / (2 * math.pi))


def check_points(pts, n, psn, M, ck, what):
    pts = np.asarray(pts, dtype=float)
    ck.same(len(pts), n, what + ": number of points")
    r, z = pts[:, 0], pts[:, 1]
    o = M.o
    ck.close(M.at(r, z), np.full(n, psn), what + ": normalised flux", rtol=0, atol=5e-5 + (2e-3 if psn < 0.1 else 0))
    th = np.arctan2(r - o[0], z - o[1])
    d = np.diff(np.concatenate([th, th[:1]]))
    d = (d + math.pi) % (2 * math.pi) - math.pi
    ck.close(np.abs(d), np.full(n, 2 * math.pi / n), what + ": angular spacing", rtol=0, atol=2e-3 if psn < 0.1 else 2e-4)
    ck.expect(np.all(d > 0) or np.all(d < 0), what + ": order of the points")
    # first crossing: nothing beyond the surface on the way
    dist = np.hypot(r - o[0], z - o[1])
    for f in np.linspace(0.02, 0.995, 60):
        v = M.at(o[0] + f * (r - o[0]), o[1] + f * (z - o[1]))
        ck.expect(np.all(v <= psn + 1e-3), what + ": not the first crossing")
    t, v, s, c = M.rays(th, n=3000)
    i = np.argmax(v > psn, axis=0)
    first = t[np.maximum(i - 1, 0), np.arange(n)]
    last = t[i, np.arange(n)]
    slack = 2e-3
    # rays that touch the surface near an X-point are not judged
    k = v[np.minimum(i + 20, len(v) - 1), np.arange(n)] > psn + 2e-4
    ck.expect(np.all((dist >= first - slack)[k] & (dist <= last + slack)[k]), what + ": distance from the axis")


def run_surfaces(case, ck):
    from freegs import critical

    eq = equilibrium(case["conf"], case["grid"], case["sign"], case["wall"], case["Z0"], shift=case.get("shift", 0.0))
    M = Map(eq)
    n = case["n"]
    psi0, ax0 = np.array(eq.psi()), (eq.psi_axis, eq.psi_bndry)
    check_points(eq.separatrix(n), n, 1.0, M, ck, "separatrix of %d points" % n)
    psi = eq.psi()
    opt, xpt = critical.find_critical(eq.R, eq.Z, psi)
    for psn in case["surfaces"]:
        got = critical.find_separatrix(eq, ntheta=n, psival=psn)
        check_points([p[:2] for p in got], n, psn, M, ck, "surface %g" % psn)
        for p in got:
            if xpt:
                ck.close(p[2:4], xpt[0][:2], "X-point returned with the surface", atol=1e-9)
        alt = critical.find_separatrix(eq, opoint=opt, xpoint=xpt, psi=psi, ntheta=n, psival=psn)
        ck.close(np.array(alt), np.array(got), "surface with given O- and X-points", atol=1e-9)
        ck.step(2)
    if case["default"]:
        ck.same(np.asarray(eq.separatrix()).shape, (360, 2), "default separatrix")
        ck.same(len(critical.find_separatrix(eq)), 20, "default find_separatrix")
    # single rays
    from scipy.interpolate import RectBivariateSpline

    fun = RectBivariateSpline(eq.R_1D, eq.Z_1D, (eq.psi() - M.o[2]) / (eq.psi_bndry - M.o[2]))
    th = np.arange(12) * math.pi / 6 + 0.11
    for psn in case["surfaces"]:
        r, z, ok = M.surface(psn, th)
        for k in range(len(th)):
            if not ok[k]:
                continue
            for far in (10.0, 3.0):
                g = critical.find_psisurface(eq, fun, M.o[0], M.o[1], M.o[0] + far * math.sin(th[k]), M.o[1] + far * math.cos(th[k]), psival=psn, n=1000)
                grad = abs(float(fun(r[k], z[k], dx=1, grid=False)) * math.sin(th[k]) + float(fun(r[k], z[k], dy=1, grid=False)) * math.cos(th[k]))
                ck.close([g[0], g[1]], [r[k], z[k]], "surface %g along angle %g" % (psn, th[k]), rtol=0, atol=2e-4 / max(grad, 0.1) + (3e-3 if psn < 0.1 else 0))
                ck.step()
    ck.expect(np.array_equal(eq.psi(), psi0) and ax0 == (eq.psi_axis, eq.psi_bndry), "equilibrium is unchanged")
    ck.state(case)
    ck.trace()
    ck.outcome(case["conf"], case["wall"], bool(eq.is_limited))


FORMS = {
    "scalar": lambda p: p[0],
    "np": lambda p: np.float64(p[0]),
    "list": lambda p: list(p),
    "tuple": lambda p: tuple(p),
    "array": lambda p: np.array(p),
}


def tolq(p):
    return 0.004 if p <= 0.8 else (0.006 if p < 0.96 else 0.02)


def run_q(case, ck):
    from freegs import critical

    eq = equilibrium(case["conf"], case["grid"], case["sign"], case["wall"], case["Z0"], case["sF"], case.get("shift", 0.0))
    M = Map(eq)
    P = case["P"]
    want = [M.q(p) for p in P]
    if any(w is None for w in want):
        raise Inconclusive("surface leaves the domain")
    for form in case["forms"]:
        arg = FORMS[form](P)
        got = eq.q(arg)
        n = 1 if form in ("scalar", "np") else len(P)
        if n == 1:
            ck.expect(np.ndim(got) == 0, "q of a single surface is a scalar")
        else:
            ck.same(np.shape(got), (n,), "shape of q (%s)" % form)
        g = np.atleast_1d(got)
        for k in range(n):
            ck.close(g[k], want[k], "q(%g) requested as %s" % (P[k], form), rtol=tolq(P[k]))
        ck.step()
    f = np.atleast_1d(critical.find_safety(eq, psinorm=np.array(P)))
    for k in range(len(P)):
        ck.close(f[k], want[k], "find_safety(%g)" % P[k], rtol=tolq(P[k]))
    psi = eq.psi()
    opt, xpt = critical.find_critical(eq.R, eq.Z, psi)
    g = np.atleast_1d(critical.find_safety(eq, psinorm=np.array(P), ntheta=200, psi=psi, opoint=opt, xpoint=xpt))
    for k in range(len(P)):
        ck.close(g[k], want[k], "find_safety(%g), 200 angles" % P[k], rtol=tolq(P[k]))
    ck.state(case)
    ck.step(2)
    ck.trace()
    ck.outcome(case["conf"], case["wall"], bool(eq.is_limited), len(P))


def run_qgrid(case, ck):
    """q() without a request, and requests up to the axis and the boundary"""
    eq = equilibrium(case["conf"], case["grid"], case["sign"], case["wall"], case["Z0"], shift=case.get("shift", 0.0))
    M = Map(eq)
    n = case["npsi"]
    psn, q = eq.q(npsi=n) if n else eq.q()
    n = n or 100
    ck.same((np.shape(psn), np.shape(q)), ((n,), (n,)), "shape of the profile")
    ck.expect(psn[0] > 0 and psn[-1] < 1 and np.all(np.diff(psn) > 0), "surfaces of the profile")
    ck.close(np.diff(psn), np.full(n - 1, psn[1] - psn[0]) if n > 1 else [], "surfaces are uniform", rtol=1e-9)
    for k in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))):
        w = M.q(float(psn[k]))
        if w is not None:
            ck.close(q[k], w, "q at %g of the profile" % psn[k], rtol=tolq(psn[k]) + (0.02 if psn[k] > 0.985 else 0))
    # near the axis: continuous with the values inside
    q1 = eq.q(0.02)
    for p in (0.0, 0.005):
        ck.close(eq.q(p), q1, "q(%g) near the axis" % p, rtol=0.05)
    # mixed requests agree with single ones
    mixed = eq.q([0.0, 0.3, 0.7, 0.9, 0.97, 0.03])
    for p, m in zip((0.3, 0.7, 0.9), mixed[1:]):
        ck.close(m, eq.q(p), "q(%g) requested with the axis" % p, rtol=5e-3)
    a = eq.q([0.999, 0.5])
    ck.close(a[0], eq.q(0.999), "q(0.999) alone or in a list", rtol=5e-3)
    if not eq.is_limited:
        ck.expect(abs(eq.q(1.0)) > abs(eq.q(0.99)) > abs(eq.q(0.95)), "q rises to the X-point")
    ck.state(case)
    ck.step(6)
    ck.trace()
    ck.outcome(case["conf"], bool(eq.is_limited), n)


def check(tier):
    q = tier == "quick"
    confs = ["lower", "upper", "double", "lowerS", "none"]
    grids = ["33x33", "33x65", "65x33", "65x65", "17x33"]
    walls = [None, "in", "out", "far"]
    surf, sq, grid_ = [], [], []
    for c, g, s, w in itertools.product(confs, grids, (1.0, -1.0), walls):
        if c == "none" and w is None:
            continue
        if q and g in ("65x65", "17x33") and (c != "lower" or s < 0):
            continue
        for Z0 in (0.0, 0.06) if not q else (0.06,):
            for n in (4, 7, 24, 60, 200) if not q else (4, 7, 60):
                surf.append(dict(conf=c, grid=g, sign=s, wall=w, n=n, Z0=Z0, surfaces=[0.05, 0.5, 0.9, 0.99] if n < 100 else [0.7], default=n == 7))
            k = confs.index(c) + grids.index(g)
            for sF in (None, 1.0, -1.0):
                if q and sF is not None and (g != "33x33" or w not in (None, "out")):
                    continue
                sq.append(dict(conf=c, grid=g, sign=s, wall=w, Z0=Z0, sF=sF, P=[0.2, 0.5, 0.95], forms=list(FORMS)))
                if not q or k % 2:
                    sq.append(dict(conf=c, grid=g, sign=s, wall=w, Z0=Z0, sF=sF, P=[0.9, 0.1, 0.5, 0.03, 0.98], forms=["list", "array"]))
                    sq.append(dict(conf=c, grid=g, sign=s, wall=w, Z0=Z0, sF=sF, P=[0.4], forms=list(FORMS)))
            if not q or (g == "33x33" and w != "far") or (c == "lower" and w is None):
                for npsi in (None, 3, 30) if not q else (None if s > 0 else 12,):
                    grid_.append(dict(conf=c, grid=g, sign=s, wall=w, Z0=Z0, npsi=npsi))
    # little room around the plasma; domains away from the midplane
    for c, s, (g, shift) in itertools.product(("lower", "upper"), (1.0, -1.0), (("tight", 0.0), ("33x33", 2.0), ("33x33", -1.4), ("tight", 1.5))):
        if q and (c == "lower") == (s > 0) and (g, shift) != ("tight", 0.0):
            continue
        d = dict(conf=c, grid=g, sign=s, wall=None, Z0=0.0, shift=shift)
        surf.append(dict(d, n=60, surfaces=[0.05, 0.5, 0.9, 0.99], default=False))
        sq.append(dict(d, sF=None, P=[0.9, 0.1, 0.5, 0.03, 0.98], forms=["list"]))
        if not q:
            grid_.append(dict(d, npsi=30))
    return CheckDef(
        "C25",
        [
            Section("surfaces", surf, run_surfaces, "configurations, grids (incl. tight around the plasma and away from the midplane), signs, walls, numbers of points, surfaces"),
            Section("q", sq, run_q, "the same, all forms of request"),
            Section("profiles", grid_, run_qgrid, "q without a request, to axis and boundary"),
        ],
        ["rays which only touch the surface at an X-point are not judged"],
    )
