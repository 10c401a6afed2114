"""C26: a full solve delivers what was asked for, and respects symmetries.

Each problem (machine, profiles, control, boundary condition, order, limiter,
grid) is solved in its original form and in every transformed form: mirrored
vertically, moved vertically, all currents reversed, field reversed, scaled,
coils listed in another order.  The transformed solution must be the
transformation of the original one; each of them is judged against the request
(current, pressure or beta, X-points, equal fluxes) and the Grad-Shafranov
equation by finite differences of the total flux.
"""

import itertools
import math
import numpy as np
from mc.core import CheckDef, Section, Violation, Inconclusive, quiet

MU0 = 4e-7 * math.pi
GRIDS = {
    "33x33": (0.1, 2.0, -1.0, 1.0, 33, 33),
    "33x65": (0.15, 2.05, -1.05, 1.1, 33, 65),
    "65x33": (0.1, 2.0, -1.0, 1.0, 65, 33),
    "65x65": (0.1, 2.0, -1.1, 1.1, 65, 65),
}
IDENT = dict(mirror=False, s=1.0, sF=1.0, k=1.0, shift=0.0, perm=0)


def machine(kind, wall, t):
    from freegs.machine import Machine, Circuit, Solenoid, Wall
    from freegs.coil import Coil
    from freegs.shaped_coil import ShapedCoil

    m = -1.0 if t["mirror"] else 1.0
    dz = t["shift"]

    def z(v):
        return m * v + dz

    def box(r, zz):
        return ShapedCoil([(r + a, z(zz + b)) for a, b in ((-0.05, -0.05), (-0.05, 0.05), (0.05, 0.05), (0.05, -0.05))])

    if kind == "plain":
        c = [("P1L", box(1.0, -1.1)), ("P1U", box(1.0, 1.1)), ("P2L", Coil(1.75, z(-0.6))), ("P2U", Coil(1.75, z(0.6)))]
    elif kind == "circuit":
        c = [
            ("X", Circuit([("XL", Coil(1.0, z(-1.15), turns=2), 1.0), ("XU", Coil(1.0, z(1.2)), 1.5)])),
            ("D", Circuit([("DL", Coil(1.1, z(-1.2)), 1.0), ("DU", Coil(1.1, z(1.2)), -1.0)])),
            ("P2L", Coil(1.75, z(-0.6))),
            ("P2U", Coil(1.75, z(0.6))),
        ]
    else:
        # a coil which is not controlled, and a solenoid
        a, b = sorted((z(-0.6), z(0.65)))
        c = [("P1L", box(1.0, -1.1)), ("S", Solenoid(0.05, a, b, 20)), ("P1U", box(1.0, 1.1)),
             ("P2L", Coil(1.75, z(-0.6))), ("P2U", Coil(1.75, z(0.6))), ("P3", Coil(2.3, z(0.1)))]
        d = dict(c)
        d["S"].control = False
        d["S"].current = t["s"] * t["k"] * 2e3
        d["P3"].control = False
        d["P3"].current = -t["s"] * t["k"] * 1.5e4
    order = list(range(len(c)))
    if t["perm"]:
        order = order[t["perm"]:] + order[:t["perm"]]
        order = order[::-1]
    w = None
    if wall:
        r0, r1 = wall
        w = Wall([r0, r0, 1.5, r1, r1, 1.5], [z(v) for v in (-0.85, 0.85, 0.85, 0.25, -0.25, -0.85)])
    return Machine([c[i] for i in order], w)


def problem(case, t):
    import freegs
    from freegs import jtor, boundary, control

    m = -1.0 if t["mirror"] else 1.0
    s = t["s"] * t["k"]
    f = t["s"] * t["sF"] * t["k"]
    Rmin, Rmax, Zmin, Zmax, nx, ny = GRIDS[case["grid"]]
    if t["mirror"]:
        Zmin, Zmax = -Zmax, -Zmin
    wall = case["wall"]
    tok = machine(case["machine"], wall, t)
    bc = {"free": boundary.freeBoundary, "hagenow": boundary.freeBoundaryHagenow}[case["boundary"]]
    eq = freegs.Equilibrium(tok, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin + t["shift"], Zmax=Zmax + t["shift"], nx=nx, ny=ny, boundary=bc, order=case["order"])
    # the initial guess is part of the problem
    X, Y = (eq.R - 1.05) / 0.5, ((eq.Z - t["shift"]) - 0.05 * m) / 0.7
    eq._updatePlasmaPsi(s * 0.1 * np.exp(-(X * X) - Y * Y))
    if case["profile"] == "paxis":
        p = jtor.ConstrainPaxisIp(eq, 1e3 * t["k"] ** 2, 2e5 * s, 2.0 * f)
    elif case["profile"] == "betap":
        p = jtor.ConstrainBetapIp(eq, 0.4, 2e5 * s, 2.0 * f, alpha_m=1.3, alpha_n=1.7, Raxis=1.1)
    else:
        p = jtor.ProfilesPprimeFfprime(lambda x: 1.2e5 * s * (1 - x), lambda x: 0.8 * s * (1 - x) ** 2, 2.0 * f)
    zc = lambda v: m * v + t["shift"]
    v0 = 0.02 if case["profile"] == "func" else 0.04
    xp, iso, pv = {
        "two": ([(1.1, -0.6), (1.1, 0.8)], [(1.1, -0.6, 1.1, 0.8)], []),
        "lower": ([(1.1, -0.6)], [(1.1, -0.6, 1.1, 0.6), (1.1, -0.6, 1.62, 0.0)], []),
        "value": ([(1.1, -0.62)], [(1.1, -0.62, 1.1, 0.62)], [(1.6, 0.0, v0)]),
    }[case["con"]]
    xp = [(r, zc(z)) for r, z in xp]
    iso = [(a, zc(b), c, zc(d)) for a, b, c, d in iso]
    pv = [(r, zc(z), v * s) for r, z, v in pv]
    con = control.constrain(xpoints=xp, isoflux=iso, psivals=pv)
    return eq, p, con


def solve(case, t):
    import freegs

    eq, p, con = problem(case, t)
    kw = dict(rtol=case["rtol"], blend=case["blend"], maxits=200)
    if case["wall"]:
        kw["check_limited"] = True
    try:
        with quiet():
            info = freegs.solve(eq, p, con, convergenceInfo=True, **kw)
    except (RuntimeError, ValueError, np.linalg.LinAlgError) as e:
        return None, p, con, str(e)
    return eq, p, con, len(info[0])


def judge(case, t, eq, p, con, ck, w):
    """The request is met"""
    s = t["s"] * t["k"]
    psi = np.array(eq.psi())
    nx, ny = eq.R.shape
    ck.expect(np.all(np.isfinite(psi)), w + "flux is finite")
    if case["profile"] in ("paxis", "betap"):
        ck.close(eq.plasmaCurrent(), 2e5 * s, w + "plasma current", rtol=1e-6)
    if case["profile"] == "paxis":
        ck.close(eq.pressure(0.0), 1e3 * t["k"] ** 2, w + "pressure on axis", rtol=5e-3)
    if case["profile"] == "betap":
        ck.close(eq.poloidalBeta(), 0.4, w + "poloidal beta", rtol=0.03)
    ck.close(eq.fvac(), 2.0 * t["s"] * t["sF"] * t["k"], w + "vacuum field", rtol=1e-12)
    # Grad-Shafranov: the total flux curvature is that of the profiles, inside of the core
    R, Z = eq.R, eq.Z
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    c = (slice(1, -1), slice(1, -1))
    rp, rm = R[1:-1, 1:-1] + dR / 2, R[1:-1, 1:-1] - dR / 2
    star = R[c] * ((psi[2:, 1:-1] - psi[c]) / rp - (psi[c] - psi[:-2, 1:-1]) / rm) / dR ** 2
    star = star + (psi[1:-1, 2:] - 2 * psi[c] + psi[1:-1, :-2]) / dZ ** 2
    J = -star / (MU0 * R[c])
    x = (psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    core = np.asarray(eq.mask) > 0.5
    deep = core[c] & core[2:, 1:-1] & core[:-2, 1:-1] & core[1:-1, 2:] & core[1:-1, :-2]
    far = ~core
    for a, b in itertools.product((-1, 0, 1), repeat=2):
        far = far & ~np.roll(np.roll(core, a, 0), b, 1)
    xc = np.clip(x[c], 0, 1)
    want = np.zeros_like(J)
    pp, ff = np.vectorize(lambda v: float(p.pprime(v))), np.vectorize(lambda v: float(p.ffprime(v)))
    want[deep] = R[c][deep] * pp(xc[deep]) + ff(xc[deep]) / (MU0 * R[c][deep])
    sc = np.abs(J).max()
    ck.expect(deep.sum() >= (1 if case["wall"] else 20), w + "core region")
    ck.close(J[deep], want[deep], w + "Grad-Shafranov equation in the core", rtol=0, atol=case["tolJ"] * sc)
    ins = far[c] & ~near_coils(eq, R[c], Z[c])
    ck.close(J[ins], np.zeros(ins.sum()), w + "no current outside of the core", rtol=0, atol=case["tolJ"] * sc)
    rng = abs(eq.psi_bndry - eq.psi_axis)
    ck.expect(np.sign(eq.psi_axis - eq.psi_bndry) == np.sign(s), w + "sign of the flux")
    ncon = 2 * len(con.xpoints) + len(con.isoflux) + len(con.psivals)
    if ncon > len(eq.tokamak.controlCurrents()):
        # cannot all be met
        return
    # constraints
    for r, z in con.xpoints:
        b = np.hypot(float(eq.Br(r, z)), float(eq.Bz(r, z)))
        ck.close(b, 0.0, w + "field at the X-point (%g, %g)" % (r, z), atol=case["tolX"] * 0.2 * t["k"])
    for a, b, cc, d in con.isoflux:
        ck.close(float(eq.psiRZ(a, b)), float(eq.psiRZ(cc, d)), w + "flux at the points of a pair", rtol=0, atol=case["tolX"] * rng)
    for r, z, v in con.psivals:
        ck.close(float(eq.psiRZ(r, z)), v, w + "flux value", rtol=0, atol=case["tolX"] * rng)


def near_coils(eq, R, Z, dist=0.35):
    """Points next to a conductor inside of the domain, where differences are inaccurate"""
    out = np.zeros(R.shape, bool)

    def walk(coil):
        if hasattr(coil, "coils"):
            for _, c, _ in coil.coils:
                yield from walk(c)
        else:
            yield coil

    for _, c in eq.tokamak.coils:
        for k in walk(c):
            if hasattr(k, "R"):
                out |= np.hypot(R - k.R, Z - k.Z) < dist
            else:
                out |= R < 0.1 + dist
    return out


def transformed(t, eq):
    """Plasma flux, total flux, coil currents and numbers of a solution, transformed back"""
    s = t["s"] * t["k"]
    flip = (lambda a: a[:, ::-1]) if t["mirror"] else (lambda a: a)
    m = -1.0 if t["mirror"] else 1.0
    ax = eq.magneticAxis()
    out = dict(
        plasma=flip(np.array(eq.plasma_psi)) / s,
        total=flip(np.array(eq.psi())) / s,
        J=flip(np.array(eq.Jtor)) / s,
        axis=(float(ax[0]), m * (float(ax[1]) - t["shift"])),
        psi_axis=eq.psi_axis / s,
        psi_bndry=eq.psi_bndry / s,
        currents={k: v / s for k, v in eq.tokamak.getCurrents().items()},
        limited=bool(eq.is_limited),
        mask=flip(np.array(eq.mask)),
        p0=float(eq.pressure(0.0)) / t["k"] ** 2,
        f0=float(eq.fpol(0.3)) / (t["s"] * t["sF"] * t["k"]),
        q=float(eq.q(0.5)) * t["s"] * t["sF"],
        forces={},
    )
    for n, v in eq.getForces().items():
        if not isinstance(v, dict):
            out["forces"][n] = np.array([v[0], m * v[1]], dtype=float) / t["k"] ** 2
    return out


def run(case, ck):
    base, p, con, info = solve(case, IDENT)
    if base is None:
        # every other form fails as well
        for t in case["forms"]:
            e, *_ = solve(case, dict(IDENT, **t))
            exact = not (set(t) & {"k", "perm"})
            if exact:
                ck.expect(e is None, "%s does not converge, but its form %s does" % (case["name"], t))
            ck.step()
        ck.outcome("fails")
        ck.state(case)
        return
    judge(case, IDENT, base, p, con, ck, case["name"] + ": ")
    a = transformed(IDENT, base)
    rng = abs(a["psi_axis"] - a["psi_bndry"])
    far = ~near_coils(base, base.R, base.Z, 0.2)
    ck.step()
    for form in case["forms"]:
        t = dict(IDENT, **form)
        w = "%s in the form %s: " % (case["name"], form)
        e, p, con, info2 = solve(case, t)
        if e is None and case["wall"] and "k" in form:
            # the iterations of a scaled problem differ slightly, and few converge when limited
            ck.outcome("not converged")
            continue
        ck.expect(e is not None, w + "does not converge (%s)" % info2)
        judge(case, t, e, p, con, ck, w)
        b = transformed(t, e)
        tol = case["tolscale"] if set(form) & {"k", "perm"} else case["tol"]
        ck.close(b["plasma"], a["plasma"], w + "plasma flux", rtol=0, atol=tol * rng)
        ck.close(b["total"][far], a["total"][far], w + "total flux", rtol=0, atol=tol * rng)
        ck.close([b["psi_axis"], b["psi_bndry"]], [a["psi_axis"], a["psi_bndry"]], w + "flux of axis and boundary", rtol=0, atol=tol * rng)
        ck.close(b["axis"], a["axis"], w + "axis", rtol=0, atol=max(tol, 2e-3))
        ck.same(b["limited"], a["limited"], w + "limited")
        big = max(abs(v) for v in a["currents"].values())
        for n in a["currents"]:
            ck.close(b["currents"][n], a["currents"][n], w + "current in " + n, rtol=0, atol=10 * tol * big)
        ck.close(b["p0"], a["p0"], w + "pressure", rtol=10 * tol)
        ck.close(b["f0"], a["f0"], w + "f", rtol=10 * tol)
        ck.close(b["q"], a["q"], w + "q", rtol=max(10 * tol, 1e-3))
        fb = max(np.abs(v).max() for v in a["forces"].values())
        for n, v in a["forces"].items():
            ck.close(b["forces"][n], v, w + "force on " + n, rtol=0, atol=max(20 * tol, 5e-3) * fb)
        ck.expect(np.mean(b["mask"] != a["mask"]) <= (0.01 if tol > 1e-6 else 0.004), w + "core region")
        ck.step()
        ck.trace()
    ck.state(case)
    ck.outcome(case["machine"], case["profile"], case["con"], bool(case["wall"]), a["limited"])


FORMS = [
    dict(mirror=True), dict(s=-1.0), dict(sF=-1.0), dict(mirror=True, s=-1.0), dict(mirror=True, sF=-1.0), dict(s=-1.0, sF=-1.0),
    dict(k=2.0), dict(k=0.5, s=-1.0), dict(shift=1.5), dict(shift=-2.25, mirror=True), dict(perm=1), dict(perm=2, s=-1.0), dict(shift=0.75, s=-1.0),
]


def check(tier):
    q = tier == "quick"
    cases = []
    i = 0
    for mach, prof, con, wall, bc, order, grid, blend in itertools.product(
        ("plain", "circuit", "fixed"), ("paxis", "betap", "func"), ("two", "lower", "value"), (None, (0.6, 1.7), (0.85, 1.8)),
        ("free", "hagenow"), (2, 4), ("33x33", "33x65", "65x33", "65x65"), (0.0, 0.3)):
        if (mach == "circuit" and con == "two") or (prof == "func" and con == "value"):
            continue
        i += 1
        if order == 4 and bc == "hagenow" and q:
            continue
        if q:
            g = (("plain", "circuit", "fixed").index(mach) + ("paxis", "betap", "func").index(prof) + ("two", "lower", "value").index(con)) % 3
            if wall and (con == "value" or (wall[0] > 0.7) != (mach == "plain")):
                continue
            if grid != ("33x33", "33x65", "65x33")[g] or (bc == "free") != (g % 2 == 0) or (blend > 0) != (prof == "betap" and mach == "fixed") or (order == 4) != (bc == "free" and prof == "func"):
                continue
        else:
            if grid == "65x65" and (blend or order == 4 or bc == "free"):
                continue
            if blend and (order == 4 or grid != "33x33"):
                continue
        forms = FORMS if not wall else [f for f in FORMS if not f.get("shift")]
        if q:
            forms = [forms[len(cases) % 3], forms[3 + len(cases) % 3]] + forms[6 + len(cases) % 4:][::4]
        name = "%s/%s/%s/%s/%s/%d/%s/%g" % (mach, prof, con, wall, bc, order, grid, blend)
        cases.append(dict(name=name, machine=mach, profile=prof, con=con, wall=wall, boundary=bc, order=order, grid=grid, blend=blend,
                          rtol=1e-5, forms=forms, tol=5e-3 if wall else 1e-3, tolscale=5e-3, tolJ=0.06, tolX=2e-2))
    return CheckDef(
        "C26",
        [Section("problems", cases, run, "machines x profiles x constraints x walls x boundary conditions x orders x grids, each in %s transformed forms" % ("5 to 7" if q else "10 to 13"), timeout=900)],
        ["limiter problems are not moved vertically (the 0.75 X-point height rule refers to Z = 0)"],
    )
