"""C15: optimiser controls and measures.

Enumerated: limits x requests (pairs of requests) x coil kinds; machines of up
to three components with all current patterns; wall outlines (all rectangles
of a lattice, other shapes, every starting corner and both orientations)
around equilibria whose boundary is traced independently.
"""

import functools
import itertools
import math
import numpy as np
from mc.core import CheckDef, Inconclusive, Section
from mc import eqs, ref

LIM = [None, -0.5, 0.0, 0.3, 1.0]
REQ = [-1.0, -0.5, 0.0, 0.1, 0.3, 0.6, 1.0, 1.75]
RLIM = [None, 0.0, 0.3, 1.0, 1.5]
RREQ = [-0.2, 0.0, 0.1, 0.3, 0.6, 1.0, 1.4, 1.5, 2.25]


class Holder:
    """Anything with a machine"""

    def __init__(self, tok):
        self.tokamak = tok


def coil(kind):
    from freegs.coil import Coil
    from freegs.shaped_coil import ShapedCoil
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil

    if kind == "point":
        return Coil(1.2, 0.4, current=10.0)
    if kind == "shaped":
        return ShapedCoil([(1.15, 0.35), (1.15, 0.45), (1.25, 0.45), (1.25, 0.35)], current=10.0)
    if kind == "filament":
        return FilamentCoil([1.15, 1.25, 1.2], [0.4, 0.4, 0.4], current=10.0)
    return MultiCoil([1.15, 1.25], [0.35, 0.45], current=10.0)


def snapshot(c):
    return (float(c.R), float(c.Z), float(c.current), float(c.turns), bool(c.control))


def run_limits(case, ck):
    from freegs import optimise as om
    from freegs.machine import Machine

    kind, what, lo, hi, r1, r2, default = case
    if lo is not None and hi is not None and lo > hi:
        return
    c, o1, o2 = coil(kind), coil("point"), coil("shaped")
    eq = Holder(Machine([("first", o1), ("it", c), ("last", o2)]))
    cls = om.CoilRadius if what == "R" else om.CoilHeight
    kw = {}
    if not (default and lo is None):
        kw["minimum"] = lo
    if not (default and hi is None):
        kw["maximum"] = hi
    ctl = cls("it", **kw)
    if default and what == "R" and lo is None:
        lo = 0.0  # documented default
    before = [snapshot(x) for x in (o1, o2)]
    other = float(c.Z if what == "R" else c.R)
    ck.close(ctl.get(eq), float(c.R if what == "R" else c.Z), "initial value", rtol=1e-12)
    for r in (r1, r2, r2 + 4e-7):
        if hi is not None and lo is not None and lo > hi:
            return
        ctl.set(eq, r)
        want = r
        if lo is not None:
            want = max(want, lo)
        if hi is not None:
            want = min(want, hi)
        got = float(c.R if what == "R" else c.Z)
        msg = "%s of %s coil, limits %s to %s, requested %g" % (what, kind, lo, hi, r)
        ck.close(got, want, msg, rtol=1e-12, atol=1e-12)
        ck.close(ctl.get(eq), want, "value reported, " + msg, rtol=1e-12, atol=1e-12)
        ck.close(float(c.Z if what == "R" else c.R), other, "the other coordinate, " + msg, rtol=1e-12)
        ck.close([c.current, c.turns], [10.0, c.turns], "current, " + msg, rtol=0)
        ck.same([snapshot(x) for x in (o1, o2)], before, "other coils, " + msg)
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome(what, lo is None, hi is None, r1 != want)


# ------------------------------------------------------------------ measures
SLOTS = ["point", "shaped", "circuit", "multi", "solenoid"]


def component(kind, k, I):
    from freegs.machine import Circuit, Solenoid
    from freegs.coil import Coil

    if kind == "circuit":
        return Circuit([("u", Coil(0.9 + 0.2 * k, 1.3, turns=2), 1.0), ("l", Coil(0.9 + 0.2 * k, -1.35), -0.5)], current=I)
    if kind == "solenoid":
        return Solenoid(0.15, -0.9, 0.9, 8, current=I)
    c = coil(kind)
    c.Z = 1.15 + 0.3 * k
    c.current = I
    return c


def force_list(f):
    out = []
    for v in f.values():
        out += force_list(v) if isinstance(v, dict) else [math.hypot(float(v[0]), float(v[1]))]
    return out


def run_measures(case, ck):
    from freegs import optimise as om
    from freegs.machine import Machine
    import freegs

    tok = Machine([("c%d" % k, component(kd, k, I)) for k, (kd, I) in enumerate(zip(case["kinds"], case["I"]))])
    eq = freegs.Equilibrium(tok, **eqs.GRIDS["17x33"])
    if case["plasma"]:
        eq.solve(eqs.StubProfile(), Jtor=eqs.bump(eq.R, eq.Z, 1.0, 0.1, 0.4, 2e5))
    else:
        eq._updatePlasmaPsi(np.zeros_like(eq.R))
    cur = dict(tok.getCurrents())
    ck.same(float(om.max_abs_coil_current(eq)), max(abs(I) for I in case["I"]), "largest current of %s" % case["I"])
    ck.same(dict(tok.getCurrents()), cur, "currents after measuring")
    if "solenoid" not in case["kinds"]:
        want = []
        for k, (kd, I) in enumerate(zip(case["kinds"], case["I"])):
            c = tok["c%d" % k]
            members = [(x, m * I) for _, x, m in c.coils] if kd == "circuit" else [(c, I)]
            for x, Im in members:
                # Lorentz force of everything else and the plasma, plus hoop force
                tot = Im * x.turns
                if tot == 0.0:
                    want.append(0.0)
                    continue
                R, Z = float(x.R), float(x.Z)
                br = float(eq.plasmaBr(R, Z)) if case["plasma"] else 0.0
                bz = float(eq.plasmaBz(R, Z)) if case["plasma"] else 0.0
                for j, (kd2, I2) in enumerate(zip(case["kinds"], case["I"])):
                    c2 = tok["c%d" % j]
                    for y, Iy in [(y, m * I2) for _, y, m in c2.coils] if kd2 == "circuit" else [(c2, I2)]:
                        if y is not x:
                            br += Iy * float(y.controlBr(R, Z))
                            bz += Iy * float(y.controlBz(R, Z))
                x.current = Im
                a = math.sqrt(float(x.area) / math.pi)
                hoop = ref.MU0 * tot**2 / (4 * math.pi * R) * (math.log(8 * R / a) - 0.75)
                L = 2 * math.pi * R
                want.append(math.hypot((tot * bz + hoop) * L, tot * br * L))
        ck.close(float(om.max_coil_force(eq)), max(want), "largest force", rtol=1e-6)
        ck.same(dict(tok.getCurrents()), cur, "currents after measuring forces")
        ck.outcome("force", "circuit" in case["kinds"], case["plasma"])
    ck.step(2)
    ck.state(case)
    ck.trace()


def run_weighted(case, ck):
    from freegs import optimise as om

    vals, weights = case
    calls = []

    def m(k):
        def f(e):
            calls.append((k, e))
            return vals[k]

        return f

    args = [m(k) if w is None else (m(k), w) for k, w in enumerate(weights)]
    comb = om.weighted_sum(*args)
    for e in ("x", "y"):
        calls.clear()
        want = 0.0
        for v, w in zip(vals, weights):
            want += v * (1.0 if w is None else w)
        got = comb(e)
        ck.expect(got == want or abs(got - want) < 1e-12 * (1 + abs(want)), "weighted sum of %s with %s: %s" % (vals, weights, got))
        ck.same(sorted(calls), sorted((k, e) for k in range(len(vals))), "calls")
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("weights", len(vals), math.isinf(want))


# ---------------------------------------------------------------------- wall
@functools.lru_cache(None)
def boundary(conf, grid, sign):
    """The equilibrium and its boundary, traced by bisection"""
    eq = eqs.scripted(conf, grid, sign=sign)
    eq._updateBoundaryPsi()
    ax = eq.magneticAxis()
    n = 240
    th = 2 * np.pi * (np.arange(n) + 0.5) / n
    d = np.linspace(0, 1.2, 1201)[1:]
    pts = []
    for t in th:
        r, z = ax[0] + d * np.cos(t), ax[1] + d * np.sin(t)
        ok = (r > eq.Rmin) & (r < eq.Rmax) & (z > eq.Zmin) & (z < eq.Zmax)
        v = (np.asarray(eq.psiRZ(r[ok], z[ok])) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
        i = np.argmax(v > 1.0)
        if not v[i] > 1.0:
            raise Inconclusive("open boundary")
        f = (1.0 - v[i - 1]) / (v[i] - v[i - 1]) if i else 0.0
        s = d[ok][i - 1] + f * (d[ok][i] - d[ok][i - 1]) if i else d[ok][0]
        pts.append((math.cos(t), math.sin(t), s))
    return eq, (float(ax[0]), float(ax[1])), pts


def crosses(poly, wall):
    n, m = len(poly), len(wall)
    P = np.array(poly)
    Q = np.roll(P, -1, axis=0)
    for j in range(m):
        a, b = np.array(wall[j]), np.array(wall[(j + 1) % m])
        if np.all(a == b):
            continue
        o = lambda p, q, r: (q[..., 0] - p[..., 0]) * (r[..., 1] - p[..., 1]) - (q[..., 1] - p[..., 1]) * (r[..., 0] - p[..., 0])
        s1, s2 = o(a, b, P), o(a, b, Q)
        t1, t2 = o(P, Q, a), o(P, Q, b)
        if np.any((s1 * s2 < 0) & (t1 * t2 < 0)):
            return True
    return False


def run_wall(case, ck):
    from freegs import optimise as om
    from freegs.machine import Wall

    eq, ax, pts = boundary(case["conf"], case["grid"], case["sign"])
    w = [tuple(p) for p in case["wall"]]
    res = [crosses([(ax[0] + f * s * c, ax[1] + f * s * q) for c, q, s in pts], w) for f in (0.98, 1.0, 1.02)]
    if len(set(res)) > 1:
        raise Inconclusive("wall nearly touches the boundary")
    for k in range(len(w)):
        for rev in (False, True):
            v = w[k:] + w[:k]
            if rev:
                v = v[::-1]
            if case.get("closed"):
                v = v + v[:1]
            eq.tokamak.wall = Wall([p[0] for p in v], [p[1] for p in v])
            got = om.no_wall_intersection(eq)
            ck.same(float(got), math.inf if res[1] else 0.0, "wall %s, boundary %s" % (v, "crosses" if res[1] else "does not cross"))
            ck.same(bool(eq.intersectsWall()), res[1], "intersectsWall")
            ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("wall", res[1])


def check(tier):
    q = tier == "quick"
    lims = []
    for kind in ("point", "shaped", "filament", "multi"):
        for lo, hi in itertools.product(LIM, LIM):
            for r1 in REQ:
                for r2 in REQ if not q else (REQ[1], REQ[3], REQ[-1]):
                    lims.append([kind, "Z", lo, hi, r1, r2, r1 == 0.6])
        for lo, hi in itertools.product(RLIM, RLIM):
            for r1 in RREQ:
                for r2 in RREQ if not q else (RREQ[1], RREQ[4], RREQ[-1]):
                    lims.append([kind, "R", lo, hi, r1, r2, r1 in (-0.2, 0.6)])
    meas = []
    for n in (1, 2, 3):
        for kinds in itertools.combinations_with_replacement(SLOTS, n):
            if kinds.count("solenoid") > 1:
                continue
            for I in itertools.product((3e4, -8e4, 0.0), repeat=n):
                for p in (False, True):
                    if q and n == 3 and (p is False or len(set(kinds)) < 2):
                        continue
                    meas.append(dict(kinds=list(kinds), I=[x + (100.0 * k if x else 0.0) for k, x in enumerate(I)], plasma=p))
    V = [0.0, 1.5, -2.0, math.inf]
    wts = [[list(v), list(w)] for n in (1, 2, 3) for v in itertools.product(V, repeat=n) for w in itertools.product((None, 0.5, 3.0), repeat=n) if not (n == 3 and q and len(set(w)) < 2)]
    walls = []
    R0, R1, Z0, Z1 = [0.3, 0.55, 0.75], [1.2, 1.4, 1.7], [-0.95, -0.7, -0.3], [0.35, 0.7, 0.95]
    shapes = [[(a, c), (a, d), (b, d), (b, c)] for a in R0 for b in R1 for c in Z0 for d in Z1]
    shapes += [[(0.3, -0.9), (0.3, 0.9), (x, y)] for x in (0.9, 1.2, 1.75) for y in (-0.5, 0.0, 0.6)]
    shapes += [[(0.3, -0.9), (0.3, 0.9), (1.7, 0.9), (1.7, y), (x, y), (x, y - 0.05), (1.7, y - 0.05), (1.7, -0.9)] for x in (0.9, 1.3, 1.55) for y in (-0.6, 0.0, 0.5)]
    shapes += [[(0.95, -0.05), (0.95, 0.05), (1.05, 0.05), (1.05, -0.05)]]
    for conf in ("lower", "double", "upper") if not q else ("lower", "double"):
        for grid in ("33x33", "65x33") if not q else ("33x33",):
            for sign in (1.0, -1.0):
                for k, s in enumerate(shapes):
                    if q and sign < 0 and k % 3:
                        continue
                    walls.append(dict(conf=conf, grid=grid, sign=sign, wall=[list(p) for p in s], closed=bool(k % 2)))
    return CheckDef(
        "C15",
        [
            Section("limits", lims, run_limits, "all limits and pairs of requests of a lattice, four coil kinds"),
            Section("measures", meas, run_measures, "machines of 1-3 components, currents of all signs and zero, with and without plasma"),
            Section("weighted sums", wts, run_weighted, "up to three measures, weights given or not, infinite values"),
            Section("wall", walls, run_wall, "rectangles of a lattice, triangles, probes; all starting corners, both orientations"),
        ],
        ["circuit multipliers up to one in size", "walls closer to tangency than 2% of the minor radius are not judged"],
    )
