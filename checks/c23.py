"""C23: X-point or limiter.

Reference: the flux along the closed wall outline, finely sampled, against the
flux at the X-point.  With wall points at a spacing h, the extreme value found
lies between the extreme over all points and the best guaranteed in every arc
of length h; both are computed, so nothing depends on where the points are.
Enumerated: configurations with and without X-point, grids, signs, walls of a
lattice with every starting vertex and orientation, and histories of changing
the wall, the limiter setting and the plasma.
"""

import itertools
import math
import numpy as np
from mc.core import CheckDef, Section, Violation
from mc import eqs, ref

NF = 6000


def outline(v, n=NF):
    v = np.array(v, dtype=float)
    w = np.concatenate([v, v[:1]])
    d = np.hypot(*np.diff(w, axis=0).T)
    s = np.concatenate([[0], np.cumsum(d)])
    t = np.linspace(0, s[-1], n, endpoint=False)
    return np.interp(t, s, w[:, 0]), np.interp(t, s, w[:, 1]), s[-1]


def spline(eq):
    from scipy.interpolate import RectBivariateSpline

    return RectBivariateSpline(eq.R_1D, eq.Z_1D, eq.psi())


def distance(p, v):
    best = 1e9
    for i in range(len(v)):
        a, b = v[i - 1], v[i]
        L = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
        if L == 0:
            continue
        t = min(max(((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / L, 0.0), 1.0)
        best = min(best, math.hypot(a[0] + t * (b[0] - a[0]) - p[0], a[1] + t * (b[1] - a[1]) - p[1]))
    return best


def expected(eq, v, nlimit):
    """(sign, psi_x or None, lowest and highest credible sign*psi of contact)"""
    from freegs import critical

    opt, xpt = critical.find_critical(eq.R, eq.Z, eq.psi())
    f = spline(eq)
    o = opt[0]
    near = f(o[0] + 0.5 * eq.dR, o[1], grid=False)
    sign = 1.0 if o[2] > near else -1.0
    psx = xpt[0][2] if xpt else None
    R, Z, per = outline(v)
    p = sign * f(R, Z, grid=False)
    ok = np.ones(len(R), dtype=bool)
    sure = ok
    if xpt:
        ok = np.abs(Z) < 0.75 * abs(xpt[0][1]) + 1e-9
        sure = np.abs(Z) < 0.75 * abs(xpt[0][1]) - 1e-9
    if not ok.any():
        return o, sign, psx, -np.inf, -np.inf, xpt
    hi = p[ok].max()
    # the outline is straight between vertices; the samples are within ds of any point
    V = np.array(v, dtype=float)
    pv = sign * f(V[:, 0], V[:, 1], grid=False)
    kv = np.abs(V[:, 1]) < 0.75 * abs(xpt[0][1]) + 1e-9 if xpt else np.ones(len(V), dtype=bool)
    if kv.any():
        hi = max(hi, pv[kv].max())
    hi += np.abs(np.diff(p)).max()
    # arcs of the spacing of wall points, wholly allowed
    m = max(1, int(math.ceil(1.05 * len(R) / (nlimit - 1))))
    q = np.where(sure, p, -np.inf)
    ext = np.concatenate([q, q[: m + 1]])
    win = np.lib.stride_tricks.sliding_window_view(ext, m + 1).min(axis=1)
    lo = win.max()
    return o, sign, psx, lo, hi, xpt


def judge(eq, v, limited, ck, nlimit=500, what=""):
    o, sign, psx, lo, hi, xpt = expected(eq, v, nlimit) if v is not None else expected(eq, [(0.5, -0.5), (0.5, 0.5), (1.5, 0.5)], nlimit)
    rng = abs(o[2]) + abs(psx if psx is not None else 0.0) + 1e-3
    eps = 1e-6 * rng
    ck.close(eq.psi_axis, o[2], what + "flux on axis", rtol=0, atol=eps)
    if not limited or v is None:
        ck.expect(not eq.is_limited, what + "reported limited without checking")
        if psx is None:
            ck.expect(eq.psi_bndry is None, what + "boundary flux without X-point")
            ck.outcome("no boundary")
        else:
            ck.close(eq.psi_bndry, psx, what + "boundary flux is that of the X-point", rtol=0, atol=eps)
            ck.outcome("diverted, not checked")
        return
    if psx is None:
        ck.expect(bool(eq.is_limited), what + "plasma without X-point is limited by the wall")
        cls = "limited, no X-point"
    elif sign * psx < lo - eps:
        ck.expect(bool(eq.is_limited), what + "wall contact (flux %g) before the X-point (%g) but not reported limited" % (sign * lo, psx))
        cls = "limited"
    elif sign * psx > hi + eps:
        ck.expect(not eq.is_limited, what + "X-point (flux %g) before wall contact (%g) but reported limited" % (psx, sign * hi))
        cls = "diverted"
    else:
        cls = "either"
        ck.note("contact too close to the X-point flux to judge which")
        ck.expect(lo - eps <= sign * eq.psi_bndry <= max(hi, sign * psx) + eps, what + "boundary flux")
        return
    if cls == "diverted":
        ck.close(eq.psi_bndry, psx, what + "boundary flux is that of the X-point", rtol=0, atol=eps)
    else:
        ck.expect(lo - eps <= sign * eq.psi_bndry <= hi + eps, what + "boundary flux %r, expected between %r and %r" % (eq.psi_bndry, sign * lo, sign * hi))
        c = (float(eq.Rlim), float(eq.Zlim))
        ck.expect(distance(c, v) < 1e-6, what + "contact point %s is not on the wall" % (c,))
        ck.close(spline(eq)(c[0], c[1], grid=False), eq.psi_bndry, what + "flux at the contact point", rtol=0, atol=1e-5 * rng)
        if xpt:
            ck.expect(abs(c[1]) < 0.75 * abs(xpt[0][1]) + 1e-6, what + "contact point beyond the X-point")
    ck.outcome(cls)


def wall(v):
    from freegs.machine import Wall

    return Wall([p[0] for p in v], [p[1] for p in v])


_start = {}


def fresh(conf, grid, sign, v, limited, R0, Z0, nlimit=None):
    """An equilibrium with the given wall from the start"""
    import freegs
    from freegs.machine import Machine

    k = (conf, grid, sign, R0, Z0)
    if k not in _start:
        e = eqs.scripted(conf, grid, sign=sign, R0=R0, Z0=Z0)
        _start[k] = (e, np.array(e.plasma_psi))
    e, pl = _start[k]
    kw = {} if nlimit is None else dict(nlimit=nlimit)
    tok = Machine(e.tokamak.coils, wall(v) if v is not None else None, **kw)
    return freegs.Equilibrium(tok, Rmin=e.Rmin, Rmax=e.Rmax, Zmin=e.Zmin, Zmax=e.Zmax, nx=e.nx, ny=e.ny, psi=pl.copy(), current=e.plasmaCurrent(), check_limited=limited)


def run_walls(case, ck):
    v = [tuple(p) for p in case["wall"]]
    n = len(v)
    for k in case["turns"]:
        for rev in (False, True):
            u = v[k % n :] + v[: k % n]
            if rev:
                u = u[::-1]
            if case.get("closed"):
                u = u + u[:1]
            eq = fresh(case["conf"], case["grid"], case["sign"], u, True, case["R0"], case["Z0"], case.get("nlimit"))
            judge(eq, u, True, ck, case.get("nlimit") or 500, "wall %s: " % (u,))
            ck.step()
    eq = fresh(case["conf"], case["grid"], case["sign"], v, False, case["R0"], case["Z0"])
    judge(eq, v, False, ck)
    ck.state(case)
    ck.trace()


OPS = ["in", "out", "far", "none", "check", "uncheck", "plasma", "coils", "flip"]
HW = {
    "in": [(0.75, -0.9), (0.75, 0.9), (1.75, 0.9), (1.75, -0.9)],
    "out": [(0.25, -0.9), (0.25, 0.9), (1.3, 0.9), (1.3, -0.9)],
    "far": [(0.22, -0.97), (0.22, 0.97), (1.78, 0.97), (1.78, -0.97)],
}


def run_history(case, ck):
    import freegs

    eq = fresh("lower", "33x33", 1.0, HW["far"], True, 1.0, 0.0)
    cur, lim, v, n, sg = None, True, HW["far"], 0, 1.0
    for op in case["ops"]:
        if op in HW:
            v = HW[op]
            eq.tokamak.wall = wall(v)
        elif op == "none":
            v = None
            eq.tokamak.wall = None
        elif op == "check":
            lim = True
            eq.check_limited = True
        elif op == "uncheck":
            lim = False
            eq.check_limited = False
        elif op == "plasma":
            n += 1
        elif op == "coils":
            a, b = eq.tokamak["XU"].current, eq.tokamak["XL"].current
            eq.tokamak["XU"].current, eq.tokamak["XL"].current = b, a
        elif op == "flip":
            sg = -sg
            for _, c in eq.tokamak.coils:
                c.current = -c.current
        J = eqs.bump(eq.R, eq.Z, 1.0 + 0.04 * (n % 3), 0.03 * (n % 2), 0.42, sg * 3e5, e=1.45)
        eq.solve(eqs.StubProfile(), Jtor=J)
        judge(eq, v, lim, ck, what="after %s: " % op)
        ck.step()
    ck.state(case["ops"])
    ck.trace()


def check(tier):
    q = tier == "quick"
    cases = []
    confs = ["lower", "upper", "double", "none", "lowerS"]
    ri, ro = [0.25, 0.55, 0.72, 0.85], [1.25, 1.4, 1.55, 1.75]
    zz = [(-0.95, 0.95), (-0.5, 0.5), (-0.3, 0.9), (-0.85, 0.25)]
    shapes = [[(a, c), (a, d), (b, d), (b, c)] for a in ri for b in ro for c, d in zz]
    shapes += [[(0.3, -0.9), (0.3, 0.9), (x, y)] for x in (1.2, 1.4, 1.75) for y in (-0.3, 0.0, 0.4)]
    shapes += [[(1.7, -0.9), (1.7, 0.9), (x, y)] for x in (0.9, 0.7, 0.3) for y in (-0.3, 0.0, 0.4)]
    # probes through one side
    for x in (1.2, 1.35, 1.6):
        for y in (-0.5, -0.2, 0.0, 0.3):
            shapes.append([(0.3, -0.9), (0.3, 0.9), (1.7, 0.9), (1.7, y + 0.02), (x, y), (1.7, y - 0.02), (1.7, -0.9)])
    # divertor-like: contact only beyond the X-point height is ignored
    shapes.append([(0.3, -0.45), (0.3, 0.9), (1.7, 0.9), (1.7, -0.45), (1.0, -0.62)])
    i = 0
    for conf in confs:
        for grid in ("33x33", "65x33", "33x65") if not q else ("33x33", "65x33"):
            for sign in (1.0, -1.0):
                for R0, Z0 in ((1.0, 0.0), (1.05, 0.08)):
                    for n, v in enumerate(shapes):
                        i += 1
                        if q and (i % 3 and grid == "33x33" or i % 7 and grid != "33x33"):
                            continue
                        k = len(v)
                        cases.append(dict(conf=conf, grid=grid, sign=sign, R0=R0, Z0=Z0, wall=[list(p) for p in v], turns=list(range(k)) if not q else [i % k, (i + 1 + i // 7) % k], closed=i % 2 == 0, nlimit=[None, None, 200, 3000][i % 4] if i % 5 == 0 else None))
    hist = [dict(ops=list(o)) for d in range(1, 4 if q else 5) for o in itertools.product(OPS, repeat=d) if not (d == 4 and o[0] in ("uncheck", "check"))]
    return CheckDef(
        "C23",
        [
            Section("walls", cases, run_walls, "configurations, grids, signs, plasma positions, %d outlines, starting vertices, orientations" % len(shapes)),
            Section("histories", hist, run_history, "all sequences of up to %d of 9 operations" % (3 if q else 4)),
        ],
        ["walls inside the computational domain", "contacts within the spacing of wall points of the X-point flux are not judged"],
    )
