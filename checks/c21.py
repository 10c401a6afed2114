"""C21: shape, volume, beta, inductance and energy.

For every equilibrium of a completely enumerated family, every reported
quantity is recomputed twice: from its definition on the equilibrium's own
boundary points and core region (tightly), and from an independently traced
boundary and a finely resolved integral of the same flux map (to discretisation
accuracy).  Then the equilibrium is mirrored, reversed and scaled in every
combination and the quantities must follow.
"""

import itertools
import math
import numpy as np
from mc import eqs
from mc.core import CheckDef, Section, Violation, Inconclusive, quiet
from checks.c25 import Map, WALLS

MU0 = 4e-7 * math.pi
SHAPE = ["Rgeometric", "Zgeometric", "minorRadius", "aspectRatio", "inverseAspectRatio", "elongation",
         "elongationUpper", "elongationLower", "effectiveElongation", "triangularityUpper", "triangularityLower",
         "triangularity", "internalInductance1", "internalInductance3", "internalInductance", "betaN"]
PLAIN = ["plasmaVolume", "internalInductance2", "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta",
         "totalBeta", "pressure_ave", "w_th", "qcyl", "Rmagnetic", "Zmagnetic"]


class Power(eqs.StubProfile):
    """Another shape of the pressure"""

    def pressure(self, x, out=None):
        return self.p0 * (1 - np.clip(np.asarray(x, dtype=float), 0, 1)) ** 1.5


def make(case, mirror=False, sI=1.0, sF=1.0, scale=1.0):
    w = WALLS[case["wall"]]
    if w and mirror:
        w = (w[0], w[1], -w[3], -w[2])
    wall = eqs.rectangle(*w) if w else None
    with quiet():
        P = Power if case["prof"] == "power" else eqs.StubProfile
        f = case["field"] * sF * scale
        eq = eqs.scripted(case["conf"], case["grid"], sign=case["sign"] * sI * scale, wall=wall, limited=w is not None,
                          Z0=case["Z0"], mirror=mirror, prof=P(f0=2.0 * f, df=0.2 * f, p0=case["p0"] * scale**2))
    if eq.psi_bndry is None:
        raise Inconclusive("no boundary")
    return eq


def romberg(a):
    """Integral over the grid with unit spacing; a is 2^k + 1 in both directions"""

    def one(y):
        n = y.shape[-1] - 1
        T = []
        h = n
        while h >= 1:
            T.append(h * (y[..., ::h].sum(-1) - 0.5 * (y[..., 0] + y[..., -1])))
            h //= 2
        k = 1
        while len(T) > 1:
            T = [(4**k * b - a) / (4**k - 1) for a, b in zip(T, T[1:])]
            k += 1
        return T[0]

    return float(one(one(np.asarray(a, float))))


def define(eq, sep, romb=True):
    """All quantities from their definitions, on the boundary points given"""
    R, Z = eq.R, eq.Z
    dA = (R[1, 0] - R[0, 0]) * (Z[0, 1] - Z[0, 0])
    mask = np.asarray(eq.mask, float)
    integral = lambda a: romberg(np.where(mask > 0, a, 0.0) * mask) * dA
    dV = 2 * math.pi * R
    Bp2 = eq.Br(R, Z) ** 2 + eq.Bz(R, Z) ** 2
    psn = (eq.psi() - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    inner = np.where(mask > 0, psn, 0.5)
    p = np.asarray(eq.pressure(inner), float)
    Bt = np.asarray(eq.fpol(inner), float) / R
    return assemble(eq, sep, integral(dV), integral(p * dV), integral(p), integral(Bp2 * dV), integral(Bt**2 * dV))


def assemble(eq, sep, V, ipV, ip, iBp, iBt, axis=None):
    r, z = sep[:, 0], sep[:, 1]
    Rm, Zm = axis or tuple(eq.magneticAxis()[:2])
    I = eq.plasmaCurrent()
    d = {}
    a = d["minorRadius"] = (r.max() - r.min()) / 2
    R0 = d["Rgeometric"] = (r.max() + r.min()) / 2
    Z0 = d["Zgeometric"] = (z[np.argmax(r)] + z[np.argmin(r)]) / 2
    d["aspectRatio"], d["inverseAspectRatio"] = R0 / a, a / R0
    k = d["elongation"] = (z.max() - z.min()) / (2 * a)
    d["elongationUpper"], d["elongationLower"] = (z.max() - Z0) / a, (Z0 - z.min()) / a
    d["triangularityUpper"], d["triangularityLower"] = (R0 - r[np.argmax(z)]) / a, (R0 - r[np.argmin(z)]) / a
    d["triangularity"] = (d["triangularityUpper"] + d["triangularityLower"]) / 2
    d["plasmaVolume"] = V
    ke = d["effectiveElongation"] = V / (2 * math.pi**2 * R0 * a * a)
    li = 2 * iBp / (MU0 * I) ** 2
    d["internalInductance"] = d["internalInductance3"] = li / R0
    d["internalInductance1"] = li / R0 * (1 + k * k) / (2 * ke)
    d["internalInductance2"] = li / Rm
    d["poloidalBeta"] = 2 * MU0 * ipV / iBp
    d["poloidalBeta2"] = 8 * math.pi / MU0 * ip / I**2
    d["poloidalBeta3"] = 4 * ipV / (MU0 * I**2 * R0)
    bt = d["toroidalBeta"] = 2 * MU0 * ipV / iBt
    d["totalBeta"] = 1 / (1 / d["poloidalBeta"] + 1 / bt)
    d["betaN"] = 1e8 * bt * a * float(eq.Btor(R0, Z0)) / I
    d["pressure_ave"] = ipV / V
    d["w_th"] = 1.5 * ipV
    d["qcyl"] = 0.5 * (1 + k * k) * 2 * math.pi * a * (a / R0) * (eq.fvac() / R0) / (MU0 * I)
    d["Rmagnetic"], d["Zmagnetic"] = Rm, Zm
    d["shift"] = np.array([Rm - R0, Zm - Z0])
    return d


def reported(eq, n=None, plain=None):
    kw = {} if n is None else dict(npoints=n)
    d = {}
    with quiet():
        for k in SHAPE:
            d[k] = float(getattr(eq, k)(**kw))
        if plain or (n is None and plain is None):
            for k in PLAIN:
                d[k] = float(getattr(eq, k)())
        d["shift"] = np.array(eq.shafranovShift(**kw), float)
        d["axis2"] = np.array(eq.geometricAxis(**kw), float)
    return d


def independent(eq):
    """Fine tracing and integration on the same flux map"""
    M = Map(eq)
    th = np.arange(1440) * 2 * math.pi / 1440 + 1e-4
    r, z, ok = M.surface(1.0 - 1e-4, th)
    if not ok.all():
        raise Inconclusive("boundary leaves the domain")
    # integrate in polar coordinates about the axis: s = fraction of the way
    ns = 60
    s = (np.arange(ns) + 0.5) / ns
    rr = M.o[0] + s[:, None] * (r - M.o[0])
    zz = M.o[1] + s[:, None] * (z - M.o[1])
    rho = np.hypot(r - M.o[0], z - M.o[1])
    dA = s[:, None] * rho**2 / ns * (2 * math.pi / len(th))
    sc = eq.psi_bndry - M.o[2]
    psn = M.at(rr, zz)
    Br, Bz = -M.f(rr, zz, dy=1, grid=False) * sc / rr, M.f(rr, zz, dx=1, grid=False) * sc / rr
    p = np.asarray(eq.pressure(np.clip(psn, 0, 1)), float)
    Bt = np.asarray(eq.fpol(np.clip(psn, 0, 1)), float) / rr
    dV = 2 * math.pi * rr * dA
    sep = np.stack([r, z], axis=1)
    return assemble(eq, sep, dV.sum(), (p * dV).sum(), (p * dA).sum(), ((Br**2 + Bz**2) * dV).sum(),
                    (Bt**2 * dV).sum(), axis=M.o[:2])


def run_definitions(case, ck):
    eq = make(case)
    w = "%s" % case
    ck.state("eq", case)
    with quiet():
        sep = np.asarray(eq.separatrix(), float)
        ck.same(sep.shape, (360, 2), "boundary points of " + w)
        got, want = reported(eq), define(eq, sep)
        ind = independent(eq)
    scale_len = want["minorRadius"]
    for k, g in got.items():
        if k == "axis2":
            ck.close(g, [want["Rgeometric"], want["Zgeometric"]], "geometricAxis of " + w, rtol=1e-7, atol=1e-9)
            continue
        atol = 1e-7 * scale_len
        ck.close(g, want[k], "%s of %s, from its definition" % (k, w), rtol=1e-6, atol=atol)
        ck.step()
    # against the finely traced boundary; corners at the X-point are cut by the points
    geo = ("triangularityUpper", "triangularityLower", "triangularity", "Zgeometric", "shift")
    for k, g in got.items():
        if k in ("axis2",):
            continue
        if k in geo:
            a = 0.06 if k.startswith("tri") else 0.02
            ck.close(g, ind[k], "%s of %s, traced independently" % (k, w), rtol=0, atol=a * (1 if k.startswith("tri") else scale_len))
        elif k == "Zmagnetic":
            ck.close(g, ind[k], "%s of %s, traced independently" % (k, w), rtol=0, atol=1e-3)
        else:
            ck.close(g, ind[k], "%s of %s, traced independently" % (k, w), rtol=0.08 if k not in SHAPE[:8] else 0.03, atol=1e-9)
    # every number of boundary points requested
    for n in case["npoints"]:
        with quiet():
            sep = np.asarray(eq.separatrix(npoints=n), float)
            ck.same(sep.shape, (n, 2), "boundary points of " + w)
            got, want = reported(eq, n), define(eq, sep)
        for k, g in got.items():
            if k == "axis2":
                ck.close(g, [want["Rgeometric"], want["Zgeometric"]], "geometricAxis(%d) of %s" % (n, w), rtol=1e-7, atol=1e-9)
            else:
                ck.close(g, want[k], "%s(npoints=%d) of %s" % (k, n, w), rtol=1e-6, atol=1e-7 * scale_len)
            ck.step()
    # the axis is where the poloidal field vanishes, at the extremum of the flux
    R, Z, p = eq.magneticAxis()
    ck.close([eq.Br(R, Z), eq.Bz(R, Z)], [0, 0], "field at the magnetic axis of " + w, atol=0.01 * float(np.max(eq.Bpol(sep[:, 0], sep[:, 1]))))
    ck.close(p, eq.psiRZ(R, Z), "flux at the magnetic axis of " + w, atol=1e-3 * abs(eq.psi_bndry - eq.psi_axis))
    rows(eq, ck, w)
    ck.outcome(case["conf"], bool(eq.is_limited), case["prof"])
    ck.trace()


def rows(eq, ck, w):
    """Inner and outer boundary at every height of the core"""
    M = Map(eq)
    sep = np.asarray(eq.separatrix(), float)
    z0, z1 = sep[:, 1].min(), sep[:, 1].max()
    dZ, dR = eq.dZ, eq.dR
    zs = eq.Z_1D
    mid = M.o[1]
    for j, zr in enumerate(zs):
        if not (mid + 0.7 * (z0 - mid) < zr < mid + 0.7 * (z1 - mid)):
            continue
        t = np.linspace(eq.Rmin, eq.Rmax, 4001)
        v = M.at(t, np.full_like(t, zr))
        i0 = np.argmin(np.abs(t - M.o[0]))
        if v[i0] > 0.9:
            continue
        lo = np.argwhere(v[:i0] > 1)
        hi = np.argwhere(v[i0:] > 1)
        if not len(lo) or not len(hi):
            continue
        want = (t[lo.max()], t[i0 + hi.min()])
        for off in (0.0, 0.3, -0.3):
            got = eq.innerOuterSeparatrix(zr + off * dZ)
            # linear interpolation between neighbouring points
            ck.close(got, want, "inner and outer boundary at Z=%g of %s" % (zr, w), rtol=0, atol=0.3 * dR)
            ck.step()
            ck.expect(got[0] < M.o[0] < got[1], "boundary on both sides of the axis, " + w)


SAME = ["minorRadius", "aspectRatio", "inverseAspectRatio", "elongation", "effectiveElongation", "triangularity",
        "internalInductance", "internalInductance1", "internalInductance2", "internalInductance3", "plasmaVolume",
        "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta", "totalBeta", "pressure_ave", "w_th",
        "Rmagnetic", "Rgeometric"]


def run_symmetry(case, ck):
    """Mirror, reverse and scale in every combination"""
    base = reported(make(case), 120, True)
    a = base["minorRadius"]
    for m, sI, sF, sc in itertools.product((False, True), (1, -1), (1, -1), (1.0, 2.5)):
        if (m, sI, sF, sc) == (False, 1, 1, 1.0):
            continue
        eq = make(case, mirror=m, sI=sI, sF=sF, scale=sc)
        g = reported(eq, 120, True)
        w = "%s, mirrored %s, current x %g, field x %g" % (case, m, sI * sc, sF * sc)
        ck.state(case, m, sI, sF, sc)
        ck.step()
        # sampled at other angles when mirrored, or when the axis is found (to 1 mT) elsewhere
        tol, tt = (1e-5, 1e-4) if not m and sc == 1 else (0.025, 0.08)
        for k in SAME:
            f = sc**2 if k in ("pressure_ave", "w_th") else 1.0
            if k == "triangularity":
                ck.close(g[k], base[k], k + " of " + w, atol=tt)
            else:
                ck.close(g[k], f * base[k], k + " of " + w, rtol=tol)
        for k in ("betaN", "qcyl"):
            ck.close(g[k], sI * sF * base[k], k + " of " + w, rtol=3 * tol)
        up = {"elongationUpper": "elongationLower", "triangularityUpper": "triangularityLower"}
        up.update({v: k for k, v in up.items()})
        for k in up:
            ck.close(g[k], base[up[k] if m else k], k + " of " + w, atol=tt)
        sgn = -1 if m else 1
        ck.close(g["Zmagnetic"], sgn * base["Zmagnetic"], "Zmagnetic of " + w, atol=2e-3)
        ck.close(g["Zgeometric"], sgn * base["Zgeometric"], "Zgeometric of " + w, atol=tt * a)
        ck.close(g["shift"], base["shift"] * [1, sgn], "shafranovShift of " + w, atol=tt * a)
    ck.trace()


def run_wall(case, ck):
    """Whether the plasma touches the wall: rectangles all around the boundary"""
    import freegs

    eq = make(dict(case, wall=None))
    with quiet():
        sep = np.asarray(eq.separatrix(), float)
    r, z = sep[:, 0], sep[:, 1]
    box = [r.min(), r.max(), z.min(), z.max()]
    # every side either clear of the plasma or cutting into it, every starting corner and direction
    for cut in itertools.product((0, 1), repeat=4):
        m = 0.12
        b = [box[0] - m if not cut[0] else box[0] + m, box[1] + m if not cut[1] else box[1] - m,
             box[2] - m if not cut[2] else box[2] + m, box[3] + m if not cut[3] else box[3] - m]
        v = [(b[0], b[2]), (b[0], b[3]), (b[1], b[3]), (b[1], b[2])]
        outside = (r < b[0]) | (r > b[1]) | (z < b[2]) | (z > b[3])
        want = bool(outside.any())
        for start in range(4):
            for rev in (1, -1):
                p = (v[start:] + v[:start])[::rev]
                eq.tokamak.wall = freegs.machine.Wall([q[0] for q in p], [q[1] for q in p])
                got = bool(eq.intersectsWall())
                ck.same(got, want, "intersectsWall with wall %s of %s" % (p, case))
                ck.step()
                ck.state(case, cut, start, rev)
                ck.outcome(got)
    ck.trace()


def check(tier):
    quick = tier == "quick"
    grids = ["33x33", "33x65", "65x33", "65x65", "inner"]
    cases = []
    for conf, wall in (("lower", None), ("upper", None), ("double", None), ("lowerS", None), ("lower", "in"), ("upper", "out"), ("none", "far"), ("lower", "far")):
        for grid in grids:
            for sign, field in ((1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)):
                for prof in ("linear", "power"):
                    for Z0 in (0.0, 0.06):
                        cases.append(dict(conf=conf, wall=wall, grid=grid, sign=sign, field=field, prof=prof, p0=2e3, Z0=Z0))
    for c in cases:
        c["npoints"] = (60, 91) if quick else (60, 91, 180, 361, 720)
    defs = cases if not quick else [c for c in cases if (c["grid"] in ("33x65", "65x33")) and (c["prof"] == "power") == (c["sign"] * c["field"] < 0)
                                    and (c["Z0"] == 0) == (c["sign"] > 0) and (c["field"] > 0) == (c["grid"] == "33x65")
                                    or c["grid"] == "inner" and c["prof"] == "linear" and c["sign"] == c["field"] == 1.0 and c["Z0"] > 0]
    sym = [c for c in cases if c["sign"] == 1.0 and c["field"] == 1.0 and (not quick or (c["prof"] == "linear" and c["grid"] == "33x65" and c["Z0"] > 0))]
    walls = [c for c in cases if c["sign"] == 1.0 and c["field"] == 1.0 and c["prof"] == "linear" and c["wall"] is None and (not quick or c["grid"] == "65x33")]
    return CheckDef(
        "C21",
        [
            Section("definitions", defs, run_definitions,
                    "configurations (X-point below/above/both, limited inside/outside, none) x grids x signs of current and field x profiles x height; every quantity, 5 numbers of boundary points, every row of the core", timeout=600),
            Section("symmetry", sym, run_symmetry, "16 combinations of mirror, current and field reversal, scaling of every configuration", timeout=600),
            Section("wall contact", walls, run_wall, "all 16 rectangles clear of/cutting each side of the plasma x 8 vertex orders", timeout=600),
        ],
        ["the flux map, core region and boundary points themselves are decided by C09, C10, C23 and C25"],
    )
