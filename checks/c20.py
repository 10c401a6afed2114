"""C20: field line tracing.

The reference follows dR/dphi = R Br/Bt, dZ/dphi = R Bz/Bt with fixed small
steps and exact point-in-polygon tests.  Enumerated: field configurations,
signs of current and toroidal field, grids, start points inside and outside
the plasma, directions, walls of all lattice outlines (every starting vertex
and orientation), and chains of tracing calls where each starts where the
previous one ended.
"""

import itertools
import math
import numpy as np
from mc.core import CheckDef, Section, Violation
from mc import eqs, ref

_cache = {}


def equilibrium(conf, grid, sI, sF):
    from freegs.machine import Machine

    k = (conf, grid, sI, sF)
    if k not in _cache:
        eq = eqs.scripted(conf, grid, sign=sI)
        p = eqs.StubProfile(f0=2.0 * sF, df=0.1 * sF)
        eq._profiles = p
        _cache[k] = eq
    eq = _cache[k]
    eq.tokamak.wall = None
    return eq


def wall_of(v):
    from freegs.machine import Wall

    return Wall([p[0] for p in v], [p[1] for p in v])


def rate(eq, y, sg):
    br, bz, bt = eq.Br(y[0], y[1]), eq.Bz(y[0], y[1]), eq.Btor(y[0], y[1])
    B = np.sqrt(br**2 + bz**2 + bt**2)
    return np.array([sg * y[0] * br / bt, sg * y[0] * bz / bt, y[0] * B / np.abs(bt)])


def reference(eq, R, Z, angles, backward, h=0.13):
    """Positions and lengths at the angles; dense path as well"""
    sg = -1.0 if backward else 1.0
    y = np.array([R, Z, np.zeros(len(R))], dtype=float)
    lo = np.array([[eq.Rmin], [eq.Zmin]]) + 0.005
    hi = np.array([[eq.Rmax], [eq.Zmax]]) - 0.005
    out, dense = [y.copy()], [y.copy()]
    for a, b in zip(angles[:-1], angles[1:]):
        n = max(1, int(math.ceil(abs(b - a) / h)))
        d = (b - a) / n
        for _ in range(n):
            k1 = rate(eq, y, sg)
            k2 = rate(eq, y + d / 2 * k1, sg)
            k3 = rate(eq, y + d / 2 * k2, sg)
            k4 = rate(eq, y + d * k3, sg)
            s = d / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            y = y + s
            # (frozen beyond the domain, where the field is not defined)
            y[:2] = np.minimum(np.maximum(y[:2], lo), hi)
            dense.append(y.copy())
        out.append(y.copy())
    return np.array(out), np.array(dense)


def starts(eq):
    o = eq.magneticAxis()
    sep = np.array(eq.separatrix(72))
    rmax, rmin = sep[:, 0].max(), sep[:, 0].min()
    inn = [(o[0] + f * (rmax - o[0]), o[1]) for f in (0.15, 0.5, 0.85)] + [(o[0] - f * (o[0] - rmin), o[1]) for f in (0.4,)]
    ztop, zbot = sep[:, 1].max(), sep[:, 1].min()
    inn += [(o[0], o[1] + 0.5 * (ztop - o[1])), (o[0], o[1] - 0.5 * (o[1] - zbot))]
    out = [(rmax + d, o[1]) for d in (0.01, 0.03, 0.06)]
    return inn, out


ANGLES = {"few": np.linspace(0, 2 * np.pi, 4), "many": np.linspace(0, 6 * np.pi, 41), "uneven": np.array([0.0, 0.1, 2.5, 2.6, 9.0])}


def run_surface(case, ck):
    """Lines inside the plasma: position, flux, length, retracing"""
    from freegs.fieldtracer import FieldTracer

    eq = equilibrium(case["conf"], case["grid"], case["sI"], case["sF"])
    if case["wall"]:
        eq.tokamak.wall = eqs.rectangle(eq.Rmin + 0.05, eq.Rmax - 0.05, eq.Zmin + 0.05, eq.Zmax - 0.05)
    ft = FieldTracer(eq)
    pts = starts(eq)[0]
    R, Z = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    ang = ANGLES[case["angles"]]
    got = ft.follow(R, Z, ang, backward=case["backward"]) if not case.get("rtol") else ft.follow(R, Z, ang, rtol=case["rtol"], backward=case["backward"])
    ck.same(tuple(got.shape), (len(ang), len(R), 3), "shape of the result")
    want, _ = reference(eq, R, Z, ang, case["backward"])
    want = np.moveaxis(want, 1, 2)
    ck.close(got[:, :, :2], want[:, :, :2], "position along the line", rtol=0, atol=2e-4)
    ck.close(got[:, :, 2], want[:, :, 2], "length along the line", rtol=1e-4, atol=1e-4)
    ck.close(got[0], np.array([R, Z, 0 * R]).T, "starting point", atol=1e-12)
    ck.expect(np.all(np.diff(got[:, :, 2], axis=0) > 0), "length increases")
    psi = eq.psiRZ(got[:, :, 0], got[:, :, 1])
    ck.close(psi, np.broadcast_to(psi[0], psi.shape), "flux along the line", rtol=0, atol=2e-4 * abs(eq.psi_axis - eq.psi_bndry))
    # arc length of the space curve (cylindrical coordinates), on the dense reference
    back = ft.follow(got[-1, :, 0], got[-1, :, 1], ang[-1] - ang[::-1], backward=not case["backward"])
    ck.close(back[::-1, :, :2], got[:, :, :2], "retraced line", rtol=0, atol=4e-4)
    ck.close(back[-1, :, 2], got[-1, :, 2], "length of the retraced line", rtol=2e-4)
    # one line at a time, and in another order, is the same
    one = ft.follow(R[2:3], Z[2:3], ang, backward=case["backward"])
    ck.close(one[:, 0, :2], got[:, 2, :2], "single line", rtol=0, atol=2e-4)
    ck.step(3 * len(ang))
    ck.state(case)
    ck.trace(3)
    ck.outcome(case["conf"], case["sI"], case["sF"], case["backward"])


def run_length(case, ck):
    """The recorded length is the arc length of the curve itself"""
    from freegs.fieldtracer import FieldTracer

    eq = equilibrium(case["conf"], "33x33", case["sI"], case["sF"])
    ft = FieldTracer(eq)
    inn, out = starts(eq)
    pts = inn + out[:1]
    R, Z = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    ang = np.linspace(0, 2 * np.pi, 1201)
    got = ft.follow(R, Z, ang, backward=case["backward"])
    x = got[:, :, 0] * np.cos(ang)[:, None]
    y = got[:, :, 0] * np.sin(ang)[:, None]
    seg = np.sqrt(np.diff(x, axis=0) ** 2 + np.diff(y, axis=0) ** 2 + np.diff(got[:, :, 1], axis=0) ** 2)
    arc = np.concatenate([np.zeros((1, len(R))), np.cumsum(seg, axis=0)])
    ck.close(got[:, :, 2], arc, "length against arc length", rtol=1e-4, atol=1e-5)
    # field direction: tangent parallel to (Br, Bz, Bt) up to the sense
    m = ang[:-1] + np.diff(ang) / 2
    Rm, Zm = (got[1:, :, 0] + got[:-1, :, 0]) / 2, (got[1:, :, 1] + got[:-1, :, 1]) / 2
    d = np.diff(ang)[:, None]
    sg = -1.0 if case["backward"] else 1.0
    br, bz, bt = eq.Br(Rm, Zm), eq.Bz(Rm, Zm), eq.Btor(Rm, Zm)
    ck.close(np.diff(got[:, :, 0], axis=0) / d, sg * Rm * br / bt, "radial direction", rtol=0, atol=1e-3)
    ck.close(np.diff(got[:, :, 1], axis=0) / d, sg * Rm * bz / bt, "vertical direction", rtol=0, atol=1e-3)
    ck.step(len(ang))
    ck.state(case)
    ck.trace()
    ck.outcome(case["conf"], case["sI"], case["sF"])


WALLS = {
    "rect": [(0.45, -0.8), (0.45, 0.8), (1.7, 0.8), (1.7, -0.8)],
    "low": [(0.3, -0.75), (0.3, 0.9), (1.75, 0.9), (1.75, -0.75)],
    "tilt": [(0.3, -0.9), (0.35, 0.9), (1.75, 0.7), (1.7, -0.65)],
    "point": [(0.4, 0.0), (1.0, 0.9), (1.75, 0.3), (1.75, -0.3), (1.0, -0.9)],
    "baffle": [(0.3, -0.9), (0.3, 0.9), (1.75, 0.9), (1.75, -0.5), (1.3, -0.55), (1.75, -0.6), (1.75, -0.9)],
    "domain": None,
}


def hit(eq, path, wall):
    """First index of the dense path outside the wall (or domain); -1 if it
    only clips a corner, which the integrator's steps may miss"""
    i = _outside(eq, path, wall, 0, True)
    if i is not None and wall is not None:
        j = _outside(eq, path, wall, i, False)
        if j is not None and path[j, 2] - path[i, 2] < 2.0:
            return -1
    return i


def _outside(eq, path, wall, start, want):
    for i in range(start, len(path)):
        p = (float(path[i, 0]), float(path[i, 1]))
        if wall is None:
            e = 1e-2
            o = not (eq.Rmin + e <= p[0] <= eq.Rmax - e and eq.Zmin + e <= p[1] <= eq.Zmax - e)
        else:
            o = ref.in_polygon(p, wall) < 0
        if o == want:
            return i
    return None


def gap(p, v):
    """Distance to the outline"""
    best = 1e9
    for i in range(len(v)):
        a, b = v[i - 1], v[i]
        t = ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2)
        t = min(max(t, 0.0), 1.0)
        best = min(best, math.hypot(a[0] + t * (b[0] - a[0]) - p[0], a[1] + t * (b[1] - a[1]) - p[1]))
    return best


def run_stop(case, ck):
    """Lines outside the plasma run into the wall, or the edge of the domain"""
    from freegs.fieldtracer import FieldTracer

    eq = equilibrium(case["conf"], case["grid"], case["sI"], case["sF"])
    inn, out = starts(eq)
    pts = out + inn[2:3]
    v = WALLS[case["wall"]]
    if v is not None:
        k = case["turn"]
        v = v[k:] + v[:k]
        if case["rev"]:
            v = v[::-1]
        eq.tokamak.wall = wall_of(v)
    pts = [p for p in pts if v is None or ref.in_polygon((float(p[0]), float(p[1])), v) > 0]
    R, Z = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    ang = np.linspace(0, case["turns"] * 2 * np.pi, case["n"])
    got = FieldTracer(eq).follow(R, Z, ang, backward=case["backward"])
    _, dense = reference(eq, R, Z, ang, case["backward"])
    edge = v or [(eq.Rmin + 0.01, eq.Zmin + 0.01), (eq.Rmin + 0.01, eq.Zmax - 0.01), (eq.Rmax - 0.01, eq.Zmax - 0.01), (eq.Rmax - 0.01, eq.Zmin + 0.01)]
    for k in range(len(pts)):
        path = dense[:, :, k]
        # lines grazing the outline before they leave it may be stopped early
        i = hit(eq, path, v)
        if i == -1 or v is None and i is None and gap(path[-1], edge) < 0.06:
            continue
        g = got[:, k]
        upto = path[: i + 1] if i is not None else path
        near = [j for j in range(len(upto)) if gap(upto[j], edge) < 0.05]
        if i is None:
            if near:
                continue
            ck.close(g[-1, :2], path[-1, :2], "line from %s never meets the wall" % (pts[k],), rtol=0, atol=1e-3)
            ck.close(g[-1, 2], path[-1, 2], "its length", rtol=1e-3)
            ck.expect(np.all(np.diff(g[:, 2]) > 0), "the line goes on")
            ck.outcome("not stopped")
            continue
        end = g[-1]
        ck.expect(gap(end, edge) < 0.05, lambda: "line from %s ends at %s, %g from the wall (expected at %s)" % (pts[k], end[:2], gap(end, edge), path[i, :2]))
        first = near[0]
        ck.expect(path[first, 2] - 0.5 <= end[2] <= path[i, 2] + 0.3, lambda: "line from %s stops after %g m, expected %g m" % (pts[k], end[2], path[i, 2]))
        if first > i - 60:
            ck.close(end[:2], path[i, :2], "end of the line from %s" % (pts[k],), rtol=0, atol=0.09)
        # reported there from then on
        stopped = g[:, 2] >= end[2] - 1e-6
        s = int(np.argmax(stopped))
        ck.close(g[s:, :2], np.broadcast_to(end[:2], g[s:, :2].shape), "position after stopping", rtol=0, atol=1e-5)
        ck.expect(np.all(np.diff(g[:, 2]) >= -1e-9), "length does not decrease")
        # and it followed the field before
        psi = eq.psiRZ(g[:, 0], g[:, 1])
        ck.close(psi, psi[0], "flux along the line", rtol=0, atol=2e-3 * abs(eq.psi_axis - eq.psi_bndry))
        ck.outcome("stopped", case["wall"])
        ck.step()
    ck.state(case)
    ck.trace(len(pts))


# --- inside and outside of all outlines
BOX = (0.45, 1.65, -0.85, 0.85)


HEIGHTS = [BOX[2], 0.07, 0.078]


def fine(v, h):
    """The same outline with all sides divided into pieces of at most h"""
    out = []
    for a, b in zip(v, v[1:] + v[:1]):
        n = int(math.ceil(math.hypot(b[0] - a[0], b[1] - a[1]) / h))
        out += [(a[0] + (b[0] - a[0]) * i / n, a[1] + (b[1] - a[1]) * i / n) for i in range(n)]
    return out


def points(m, heights=None):
    """Lattice of points at twice the resolution of the vertices: heights of
    the vertices and between them"""
    n = 2 * (m - 1)
    rs = [BOX[0] + (BOX[1] - BOX[0]) * (i + 0.25) / n for i in range(-1, n + 1)]
    lat = heights or [BOX[2] + (BOX[3] - BOX[2]) * j / (m - 1) for j in range(m)]
    zs = lat + [(a + b) / 2 for a, b in zip(lat, lat[1:])]
    return [(r, z) for r in rs for z in zs]


def run_walls(case, ck):
    from freegs.fieldtracer import FieldTracer

    eq = equilibrium("lower", "33x33", 1.0, case["sF"])
    m = case["m"]
    L = [(x, y) for x in range(m) for y in range(m)]
    # one interval of heights can be very small
    H = HEIGHTS if case.get("band") else None
    P = points(m, H)
    R, Z = np.array([p[0] for p in P]), np.array([p[1] for p in P])
    # vertices at exactly the heights of the points
    zl = H or sorted(set(p[1] for p in P))[::2]
    rl = [BOX[0] + (BOX[1] - BOX[0]) * i / (m - 1) for i in range(m)]
    ang = np.array([0.0, 1e-3])
    first = [tuple(x) for x in case["first"]]
    rest = [p for p in L if p not in first]
    n = 0
    for tail in itertools.permutations(rest, case["n"] - len(first)):
        p = first + list(tail)
        if not ref.is_simple(p):
            continue
        v = [(rl[x], zl[y]) for x, y in p]
        if case.get("fine"):
            v = fine(v, case["fine"])
        eq.tokamak.wall = wall_of(v)
        got = FieldTracer(eq).follow(R, Z, ang)
        moved = got[1, :, 2] > 0.3e-3 * R
        still = got[1, :, 2] == 0.0
        for k in range(len(P)):
            side = ref.in_polygon(P[k], v)
            if side > 0 and gap(P[k], v) > 2e-3:
                ck.expect(moved[k], lambda: "wall %s: point %s is inside but the line does not move" % (v, P[k]))
            elif side < 0 and gap(P[k], v) > 2e-3:
                ck.expect(still[k], lambda: "wall %s: point %s is outside but the line moves" % (v, P[k]))
        n += 1
        ck.state(p)
    ck.step(n)
    ck.trace(n)
    ck.outcome("walls", m, case["n"])


def run_trace(case, ck):
    """traceFieldLines: lines from outside the separatrix, both directions"""
    from freegs.fieldtracer import traceFieldLines

    eq = equilibrium(case["conf"], case["grid"], case["sI"], case["sF"])
    if case["wall"] != "domain":
        eq.tokamak.wall = wall_of(WALLS[case["wall"]])
    n, m, w, t = case["nlines"], case["npoints"], case["width"], case["nturns"]
    f, b = traceFieldLines(eq, solwidth=w, nlines=n, nturns=t, npoints=m)
    o = eq.magneticAxis()
    # outboard midplane position of the boundary
    lo, hi = o[0], eq.Rmax
    rr = np.linspace(lo, hi, 4001)
    x = (eq.psiRZ(rr, np.full_like(rr, o[1])) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    rmid = rr[np.argmax(x >= 1)]
    want = np.linspace(rmid + w / n, rmid + w, n)
    for line in (f, b):
        for a in (line.R, line.Z, line.length):
            ck.same(tuple(a.shape), (m, n), "shape of the coordinates")
        ck.close(line.R[0], want, "starting radius", rtol=0, atol=2e-3)
        ck.close(line.Z[0], np.full(n, o[1]), "starting height", rtol=0, atol=2e-3)
        ck.close(line.length[0], np.zeros(n), "starting length", atol=1e-12)
    R0, Z0 = f.R[0], f.Z[0]
    ang = np.linspace(0, t * 2 * np.pi, m)
    v = WALLS[case["wall"]]
    for line, back in ((f, False), (b, True)):
        _, dense = reference(eq, R0, Z0, ang, back)
        for k in range(n):
            i = hit(eq, dense[:, :, k], v)
            if i == -1:
                continue
            path = dense[: i + 1 if i is not None else len(dense), :, k]
            if i is None:
                ck.close([line.R[-1, k], line.Z[-1, k]], path[-1, :2], "end of line %d" % k, rtol=0, atol=2e-3)
            else:
                ck.expect(line.length[-1, k] <= path[-1, 2] + 0.3, "line %d goes on after the wall" % k)
                edge = v or [(eq.Rmin + 0.01, eq.Zmin + 0.01), (eq.Rmin + 0.01, eq.Zmax - 0.01), (eq.Rmax - 0.01, eq.Zmax - 0.01), (eq.Rmax - 0.01, eq.Zmin + 0.01)]
                near = [j for j in range(len(path)) if gap(path[j], edge) < 0.05]
                ck.expect(line.length[-1, k] >= path[near[0], 2] - 0.5, "line %d stops after %g m, before the wall at %g m" % (k, line.length[-1, k], path[-1, 2]))
            ck.step()
    ck.state(case)
    ck.trace(2 * n)
    ck.outcome("trace", case["wall"])


def check(tier):
    q = tier == "quick"
    confs = ["lower", "upper", "double", "lowerS"]
    S = [(1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)]
    surf, leng, stop, walls, tr = [], [], [], [], []
    for conf in confs:
        for grid in ("33x33", "65x33", "33x65"):
            for n, (sI, sF) in enumerate(S):
                for back in (False, True):
                    for a in ANGLES:
                        for wall in (False, True):
                            if q and (grid != "33x33" and (conf != "lower" or a != "uneven") or wall != (n % 2 == 0)):
                                continue
                            surf.append(dict(conf=conf, grid=grid, sI=sI, sF=sF, backward=back, angles=a, wall=wall, rtol=1e-8 if n == 3 and wall else None))
        for sI, sF in S:
            for back in (False, True):
                leng.append(dict(conf=conf, sI=sI, sF=sF, backward=back))
    for w in WALLS:
        for conf in confs if not q else ("lower", "double"):
            for grid in ("33x33", "65x33") if not q else ("33x33",):
                for i, (sI, sF) in enumerate(S):
                    for back in (False, True):
                        nv = len(WALLS[w]) if WALLS[w] else 1
                        for turn in range(nv):
                            for rev in (False, True) if WALLS[w] else (False,):
                                if q and (turn * 2 + rev) % 4 != i:
                                    continue
                                if not q and (turn + i) % 2:
                                    continue
                                stop.append(dict(conf=conf, grid=grid, sI=sI, sF=sF, backward=back, wall=w, turn=turn, rev=rev, turns=6, n=13 if (turn + rev) % 2 else 61))
    L3 = [(x, y) for x in range(3) for y in range(3)]
    L4 = [(x, y) for x in range(4) for y in range(4)]
    for n in (3, 4):
        walls += [dict(m=3, n=n, first=[a, b], sF=1.0 if (a[0] + b[1]) % 2 else -1.0) for a in L3 for b in L3 if a != b]
    walls += [dict(m=3, n=5, first=[a, b], sF=1.0) for a in L3 for b in L3 if a != b and (not q or a == (1, 0))]
    walls += [dict(m=4, n=3, first=[a, b], sF=1.0) for a in L4 for b in L4 if a != b and (not q or a[0] == 1)]
    if not q:
        walls += [dict(m=4, n=4, first=[a, b], sF=1.0) for a in L4 for b in L4 if a != b and a[0] in (0, 2)]
    walls += [dict(m=3, n=n, first=[a, b], sF=1.0, band=True) for n in (3, 4) for a in L3 for b in L3 if a != b and (not q or n == 3 or a == (0, 0))]
    walls += [dict(m=3, n=n, first=[(0, 0), b], sF=1.0, fine=h) for n, h in ((3, 0.008), (4, 0.05)) for b in L3[1:] if not q or (n, b) in ((3, (1, 1)), (3, (2, 1)), (3, (0, 2)), (4, (1, 2)))]
    for conf in ("lower", "double", "upper"):
        for w in ("domain", "rect", "tilt", "baffle"):
            for sI, sF in S if not q else S[:: 3]:
                for nl, npn, wd, nt in ((3, 20, 0.03, 4), (5, 7, 0.06, 3), (1, 50, 0.02, 2)):
                    if q and (nl == 1) != (w in ("domain", "tilt")):
                        continue
                    tr.append(dict(conf=conf, grid="33x33", sI=sI, sF=sF, wall=w, nlines=nl, npoints=npn, width=wd, nturns=nt))
    return CheckDef(
        "C20",
        [
            Section("surfaces", surf, run_surface, "configurations, signs of current and field, grids, angle lists, directions"),
            Section("length", leng, run_length, "finely resolved lines"),
            Section("stopping", stop, run_stop, "six outlines from every vertex in both orientations, both directions"),
            Section("outlines", walls, run_walls, "all simple outlines of up to five 3x3 or %s 4x4 lattice vertices, also with two rows close together and with the sides finely divided, points at and between vertex heights" % ("three" if q else "four")),
            Section("traceFieldLines", tr, run_trace, "line counts, widths, turns, walls"),
        ],
        ["the place where a line stops is judged to 5 cm, the step of the integrator", "start points in one-dimensional arrays"],
    )
