"""C30: plots and printed tables show the equilibrium and leave it unchanged.

Drawn with the non-interactive backend; what was drawn is read back from the
axes (lines, patches, contour sets) and compared with the equilibrium.  Before
and after, everything the equilibrium reports must be the same.
"""

import itertools
import math
import re
import io
import contextlib
import numpy as np
from mc.core import CheckDef, Section, quiet
from mc import coils as mc_coils, eqs
from checks.c29 import look, compare


def pyplot():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    return plt


def sensors():
    from freegs.machine import RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor

    return [
        RogowskiSensor([0.5, 0.5, 1.5, 1.5], [-0.6, 0.7, 0.7, -0.6], name="rog"),
        PoloidalFieldSensor(1.62, 0.2, 0.4, name="bp"),
        FluxLoopSensor(0.3, -0.3, name="fl", status=False),
        FluxLoopSensor(1.7, 0.5),
    ]


# --- reading back what is on an axis
def contours(ax):
    from matplotlib.contour import ContourSet

    return [c for c in ax.get_children() if isinstance(c, ContourSet)]


def vertices(cs):
    """(level, points) of a contour set"""
    for lev, segs in zip(cs.levels, cs.allsegs):
        for s in segs:
            if len(s):
                yield float(lev), np.asarray(s)


def lines(ax, marker=None, color=None):
    from matplotlib.colors import same_color

    out = []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()
        if not len(x):
            continue  # entries of the legend
        m = l.get_marker()
        if marker is not None and (m if m not in (None, "None", "") else "") != marker:
            continue
        if color is not None and not same_color(l.get_color(), color):
            continue
        out.append(list(zip(x.tolist(), y.tolist())))
    return out


def bilinear(eq, psi, p):
    i = np.clip(((p[:, 0] - eq.Rmin) / eq.dR).astype(int), 0, eq.nx - 2)
    j = np.clip(((p[:, 1] - eq.Zmin) / eq.dZ).astype(int), 0, eq.ny - 2)
    a, b = (p[:, 0] - eq.R[i, 0]) / eq.dR, (p[:, 1] - eq.Z[0, j]) / eq.dZ
    return (1 - a) * (1 - b) * psi[i, j] + a * (1 - b) * psi[i + 1, j] + (1 - a) * b * psi[i, j + 1] + a * b * psi[i + 1, j + 1]


def same_points(ck, got, want, what, tol=1e-9):
    ck.same(len(got), len(want), "number of " + what)
    if want:
        ck.close(np.array(sorted(got)), np.array(sorted(want)), what, rtol=0, atol=tol)


def run_eq(case, ck):
    from freegs import plotting, critical

    plt = pyplot()
    wall = eqs.rectangle(0.75 if case.get("close") else 0.45, 1.55, -0.8, 0.75) if case["wall"] else None
    eq = eqs.scripted(case["conf"], case["grid"], sign=case["sign"], wall=wall, limited=case["limited"])
    if case["sensors"]:
        eq.tokamak.sensors = sensors()
    deep = eq.psi_bndry is not None
    before = look(eq, deep)
    opt, given, method = case["opt"], case["axis"], case["method"]
    plt.close("all")
    ax = plt.figure().add_subplot(111) if given else None
    nfig = len(plt.get_fignums())
    if method:
        got = eq.plot(axis=ax, show=opt["show"], oxpoints=opt["oxpoints"])
        opt = dict(opt, wall=True, plot_sensors=True)
    else:
        got = plotting.plotEquilibrium(eq, axis=ax, **opt)
    compare(ck, look(eq, deep), before, "after a plot", exact=True)
    if given:
        ck.expect(got is ax, "the given axis is returned")
        ck.same(len(plt.get_fignums()), nfig, "figures with an axis given")
    else:
        ck.same(len(plt.get_fignums()), nfig + 1, "figures without an axis")
    ax = got
    psi = eq.psi()
    rng = float(psi.max() - psi.min())
    cs = contours(ax)
    many = [c for c in cs if len(c.levels) > 1]
    one = [c for c in cs if len(c.levels) == 1]
    ck.expect(len(many) == 1 and len(many[0].levels) >= 10, "flux surfaces are drawn")
    n = 0
    for lev, p in vertices(many[0]):
        ck.close(bilinear(eq, psi, p), np.full(len(p), lev), "flux on the surface drawn for %g" % lev, rtol=0, atol=1e-4 * rng)
        n += len(p)
    lev = np.asarray(many[0].levels)
    ck.expect(lev.min() <= psi.min() + 0.11 * rng and lev.max() >= psi.max() - 0.11 * rng and n > 200, "surfaces cover all of the flux")
    o, x = critical.find_critical(eq.R, eq.Z, psi)
    if opt["oxpoints"]:
        same_points(ck, [p for l in lines(ax, "x", "r") for p in l], [(float(a), float(b)) for a, b, _ in x], "X-points drawn")
        fl = [p for l in lines(ax, "o", "g") for p in l]
        same_points(ck, fl, [(float(a), float(b)) for a, b, _ in o], "O-points drawn")
        a = eq.magneticAxis()
        ck.expect(any(math.hypot(p[0] - a[0], p[1] - a[1]) < 1e-6 for p in fl), "the magnetic axis is drawn")
        for kind, pts in (("X", x), ("O", o)):
            for r, z, _ in pts:
                h = 1e-3
                f = lambda i, j: float(eq.psiRZ(r + i * h, z + j * h))
                d = (f(1, 0) - 2 * f(0, 0) + f(-1, 0)) * (f(0, 1) - 2 * f(0, 0) + f(0, -1)) - ((f(1, 1) - f(1, -1) - f(-1, 1) + f(-1, -1)) / 4) ** 2
                if eq.Rmin + 4 * eq.dR < r < eq.Rmax - 4 * eq.dR and eq.Zmin + 4 * eq.dZ < z < eq.Zmax - 4 * eq.dZ:
                    ck.expect((d < 0) == (kind == "X"), "%s-point drawn at (%g, %g)" % (kind, r, z))
        if x:
            ck.same(len(one), 1, "separatrix drawn")
            for lv, p in vertices(one[0]):
                ck.close(bilinear(eq, psi, p), np.full(len(p), eq.psi_bndry), "flux on the separatrix drawn", rtol=0, atol=1e-4 * rng)
            ck.close(float(one[0].levels[0]), eq.psi_bndry, "level of the separatrix", rtol=1e-9)
            ck.outcome("separatrix", bool(eq.is_limited))
    else:
        ck.same(len(one), 0, "separatrices without points")
        ck.same(len(lines(ax, "x", "r")) + len(lines(ax, "o", "g")), 0, "points not asked for")
    w = eq.tokamak.wall
    black = lines(ax, "", "k")
    if opt["wall"] and w is not None:
        v = list(zip(map(float, w.R), map(float, w.Z)))
        ck.same(black, [v + v[:1]], "wall drawn")
    else:
        ck.same(black, [], "wall not asked for")
    blue, mag, red = lines(ax, "", "b"), lines(ax, "o", "m"), lines(ax, "o", "r")
    if opt["plot_sensors"] and case["sensors"]:
        s = eq.tokamak.sensors
        v = list(zip(map(float, s[0].R), map(float, s[0].Z)))
        ck.same(blue, [v + v[:1]], "Rogowski coil drawn")
        ck.same(mag, [[(float(s[1].R), float(s[1].Z))]], "field sensor drawn")
        ck.same(sorted(red), sorted([[(float(q.R), float(q.Z))] for q in s[2:]]), "flux loops drawn")
        arr = [p for p in ax.patches]
        ck.same(len(arr), 1, "direction of the field sensor drawn")
        pts = np.asarray(arr[0].get_xy())
        # the arrow lies ahead of the sensor in its direction
        d = pts - np.array([float(s[1].R), float(s[1].Z)])
        t = np.array([math.cos(s[1].theta), math.sin(s[1].theta)])
        ck.expect(0.08 < (d @ t).max() < 0.15 and (d @ t).min() > -0.01 and abs(d @ np.array([-t[1], t[0]])).max() < 0.03, "direction of the field sensor")
    else:
        ck.same((blue, mag, red), ([], [], []), "sensors not asked for")
    plt.close("all")
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("equilibrium", case["conf"], case["limited"], sorted(k for k in opt if opt[k]))


# --- constraints
def run_con(case, ck):
    import freegs
    from freegs import plotting

    plt = pyplot()
    plt.close("all")
    xp = [(1.1, -0.6), (1.05, 0.8), (0.7, 0.2)][: case["nx"]]
    iso = [(1.1, -0.6, 1.2, 0.8), (0.8, 0.1, 1.5, -0.2)][: case["ni"]]
    # X-points as the user gives them, or as find_critical reports them
    given = [x + (0.05,) for x in xp] if case["flux"] else xp
    con = freegs.control.constrain(xpoints=list(given), isoflux=list(iso), psivals=[(1.0, 0.3, 0.1)][: case["np"]])
    ax = plt.figure().add_subplot(111) if case["axis"] else None
    got = (con.plot if case["method"] else lambda **k: plotting.plotConstraints(con, **k))(axis=ax, show=case["show"])
    if ax is not None:
        ck.expect(got is ax, "the given axis is returned")
    ck.same(len(plt.get_fignums()), 1, "figures")
    same_points(ck, [p for l in lines(got, "x") for p in l], xp, "X-point constraints drawn")
    ck.same(sorted(sorted(l) for l in lines(got, "^")), sorted(sorted([(a, b), (c, d)]) for a, b, c, d in iso), "equal flux pairs drawn")
    ck.same((list(con.xpoints), list(con.isoflux)), (given, iso), "constraints after a plot")
    plt.close("all")
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("constraints", case["nx"], case["ni"])


# --- coils
KINDS = ["point", "rect", "tri1", "L3", "fil", "filshape", "filone", "filauto", "multi", "multilist", "mirror+", "mirror-", "precalc", "solenoid"]


def drawn(ax):
    """(circles, polygons, points)"""
    from matplotlib.patches import Circle, Polygon

    c = [(float(p.center[0]), float(p.center[1]), float(p.radius)) for p in ax.get_children() if isinstance(p, Circle)]
    g = [np.asarray(p.get_xy(), dtype=float) for p in ax.get_children() if isinstance(p, Polygon)]
    pts = [q for l in ax.lines if l.get_marker() not in (None, "None", "") for q in zip(map(float, l.get_xdata()), map(float, l.get_ydata()))]
    return c, g, pts


def expect_coil(m, c):
    """What a coil should look like: circles, outlines (as sets), points"""
    k = m["kind"]
    if k == "point":
        return [(float(c.R), float(c.Z), math.sqrt(float(c.area) / math.pi))], [], []
    if k == "solenoid":
        return [], [], []
    f = [(r, z) for r, z, w in mc_coils.filaments(m)]
    if k in ("multi", "multilist", "mirror+", "mirror-"):
        return [], [], f
    out = mc_coils.outline(m)
    if k in ("fil", "filone", "filshape", "filauto"):
        if out is None:
            r, z = [x[0] for x in f], [x[1] for x in f]
            out = [(min(r), min(z)), (min(r), max(z)), (max(r), max(z)), (max(r), min(z))]
        return [], [out], f if k != "filauto" else [tuple(map(float, p)) for p in c.points]
    return [], [out], []


def run_coils(case, ck):
    from freegs.machine import Machine, Circuit

    plt = pyplot()
    plt.close("all")
    models, comps = [], []
    for i, k in enumerate(case["kinds"]):
        m = mc_coils.model(k, current=case["I"] * (i + 1), dR=0.0, dZ=0.0)
        c = mc_coils.build(m)
        if case["move"] and mc_coils.KINDS[k]["move"]:
            m["dR"], m["dZ"] = 0.12 + 0.1 * i, -0.07 - 0.2 * i
            c.R, c.Z = c.R + m["dR"], c.Z + m["dZ"]
        models.append(m)
        comps.append(c)
    want = [expect_coil(m, c) for m, c in zip(models, comps)]
    state = [repr(c) for c in comps]
    # the current axis of pyplot is another one
    target = plt.figure().add_subplot(111)
    decoy = plt.figure().add_subplot(111)
    how = case["how"]
    if how == "coil":
        got = comps[0].plot(axis=target)
    elif how == "circuit":
        circ = Circuit([("c%d" % i, c, 1.0 - 2.0 * i) for i, c in enumerate(comps)], current=case["I"])
        want = [expect_coil(m, c) for m, c in zip(models, comps)]
        state = [repr(c) for c in comps]
        got = circ.plot(axis=target)
    else:
        got = Machine([("c%d" % i, c) for i, c in enumerate(comps)]).plot(axis=target, show=False)
    ck.expect(got is target, "the given axis is returned")
    ck.same((len(decoy.lines), len(decoy.patches)), (0, 0), "drawn elsewhere")
    ck.same([repr(c) for c in comps], state, "coils after a plot")
    c, g, p = drawn(target)
    same_points(ck, c, [x for w in want for x in w[0]], "circles of %s" % case["kinds"])
    ck.same(len(g), sum(len(w[1]) for w in want), "outlines drawn")
    key = lambda o: sorted(set((round(float(a), 9), round(float(b), 9)) for a, b in o))
    ck.close(np.array(sorted(itertools.chain(*[key(o) for o in g]))).ravel(), np.array(sorted(itertools.chain(*[key(o) for w in want for o in w[1]]))).ravel(), "outlines of %s" % case["kinds"], rtol=0, atol=1e-8)
    same_points(ck, p, [tuple(map(float, x)) for w in want for x in w[2]], "filaments of %s" % case["kinds"], 1e-8)
    if how == "coil" and models[0]["kind"] != "solenoid":
        n = len(plt.get_fignums())
        ck.expect(comps[0].plot() is not None, "a coil alone makes its own axis")
        ck.same(len(plt.get_fignums()), n + 1, "figures without an axis")
    plt.close("all")
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("coils", how, len(case["kinds"]))


# --- tables
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def printed(f):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        f()
    return s.getvalue()


def flat(forces, names=()):
    for k, v in forces.items():
        if isinstance(v, dict):
            yield from flat(v, names + (k,))
        else:
            yield k, [float(x) for x in v]


def run_tables(case, ck):
    import freegs
    from freegs.machine import Machine, Circuit, Solenoid
    from freegs.coil import Coil

    I = case["I"]
    parts = {
        "coil": ("A1", Coil(1.6, 0.9, current=I[0])),
        "circuit": ("B2", Circuit([("up", Coil(0.9, 1.3), 1.0), ("dn", Coil(0.9, -1.3), -0.5)], current=I[1])),
        "shaped": ("C3", mc_coils.build(mc_coils.model("rect", current=I[2], dR=0.9, dZ=-0.9))),
        "multi": ("D4", mc_coils.build(mc_coils.model("mirror+", current=I[0] / 2, dR=1.1, dZ=0.3))),
    }
    m = Machine([parts[k] for k in case["kinds"]], sensors=sensors() if case["sensors"] else None)
    eq = freegs.Equilibrium(m, **eqs.GRIDS["17x33"])
    eq.solve(eqs.StubProfile(), Jtor=eqs.bump(eq.R, eq.Z, 1.0, 0.1, 0.4, case["Ip"]))
    forces = list(flat(eq.getForces()))
    before = look(eq)
    out = printed(eq.printForces)
    rows = [l for l in out.splitlines() if "kN" in l]
    ck.same(len(rows), len(forces), "coils in the table of forces")
    for l, (k, v) in zip(rows, forces):
        ck.expect(re.search(r"\b%s\b" % k, l), "%s is in %r" % (k, l))
        n = [float(x) for x in re.findall(r"(%s) *kN" % NUM, l)]
        ck.close(n, [x / 1e3 for x in v], "forces printed for %s" % k, rtol=0, atol=0.00501)
    out = printed(m.printCurrents)
    rows = [l for l in out.splitlines() if ":" in l]
    ck.same(len(rows), len(m.coils), "coils in the table of currents")
    for l, (k, c) in zip(rows, m.coils):
        ck.expect(l.strip().startswith(k), "%s is in %r" % (k, l))
        n = [float(x) for x in re.findall(r"current=(%s)" % NUM, l)]
        ck.expect(len(n) > 0, "%r has a current" % l)
        ck.close(n[-1], float(c.current), "current printed for %s" % k, rtol=0, atol=0.0501)
    compare(ck, look(eq), before, "after printing", exact=True)
    if case["sensors"]:
        for e in (eq, None):
            out = printed(lambda: m.printMeasurements(eq=e))
            rows = [l for l in out.splitlines() if "Measurement" in l]
            ck.same(len(rows), len(m.sensors), "sensors in the table")
            got = [s.measurement for s in m.sensors]
            m.takeMeasurements(e)
            for l, s, g in zip(rows, m.sensors, got):
                if s.name:
                    ck.expect(l.startswith(s.name), "%s is in %r" % (s.name, l))
                w = l.split("Measurement=")[1]
                if s.measurement is None or g is None:
                    ck.same((g, w.strip()), (None, "None"), "measurement of a disabled sensor")
                    continue
                ck.close(float(np.ravel(g)[0]), float(np.ravel(s.measurement)[0]), "measurement taken by printing", rtol=1e-12)
                ck.close(float(re.search(NUM, w).group()), float(np.ravel(s.measurement)[0]), "measurement printed", rtol=1e-6, atol=1e-12)
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("tables", len(case["kinds"]))


# --- solving with plots
def run_show(case, ck):
    import freegs

    plt = pyplot()
    res = []
    for show in (False, True):
        plt.close("all")
        np.random.seed(0)
        m = freegs.machine.TestTokamak()
        if case["limited"]:
            m.wall = freegs.machine.Wall([0.45, 0.45, 1.45, 1.45], [-0.7, 0.7, 0.7, -0.7])
        eq = freegs.Equilibrium(m, Rmin=0.1, Rmax=2.0, Zmin=-1.0, Zmax=1.0, nx=33, ny=33)
        prof = freegs.jtor.ConstrainPaxisIp(eq, 1e3, case["s"] * 2e5, case["s"] * 2.0)
        con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.6)])
        kw = dict(rtol=case["rtol"], check_limited=case["limited"], convergenceInfo=True)
        if show:
            kw.update(show=True, pause=case["pause"])
            if case["axis"]:
                kw["axis"] = plt.figure().add_subplot(111)
        with quiet():
            try:
                info = freegs.solve(eq, prof, con if case["con"] else None, maxits=case["maxits"], **kw)
            except Exception as e:
                info = type(e).__name__
        res.append((look(eq), info))
        plt.close("all")
    compare(ck, res[1][0], res[0][0], "solved with plots (%s)" % case, exact=True)
    ck.same(type(res[0][1]), type(res[1][1]), "outcome with plots")
    if isinstance(res[0][1], str):
        ck.same(res[0][1], res[1][1], "outcome with plots")
    else:
        for a, b in zip(res[1][1], res[0][1]):
            ck.close(a, b, "convergence with plots", rtol=1e-12)
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("show", isinstance(res[0][1], str), case["limited"])


def check(tier):
    q = tier == "quick"
    B = (False, True)
    eq = []
    for conf in ("lower", "upper", "double", "none", "lowerS"):
        for grid in ("17x33", "33x33") if q else ("17x33", "33x33", "33x65", "65x33"):
            for n, (sign, wall, lim, sens) in enumerate(itertools.product((1.0, -1.0), B, B, B)):
                if lim and not wall:
                    continue
                for i, (ox, w, ps, show) in enumerate(itertools.product(B, repeat=4)):
                    if q and (i + n) % 8 != 7 and i != 14 and i != (n * 3) % 16:
                        continue
                    eq.append(dict(conf=conf, grid=grid, sign=sign, wall=wall, limited=lim, sensors=sens, axis=bool((n + i) % 2), method=bool((i // 2 + n) % 2), opt=dict(oxpoints=ox, wall=w, plot_sensors=ps, show=show)))
                    if lim:
                        eq.append(dict(eq[-1], close=True))
    con = [dict(nx=a, ni=b, np=c, axis=ax, method=me, show=sh, flux=fl) for fl in B for a in range(4) for b in range(3) for c in (0, 1) for ax in B for me in B for sh in B]
    cl = []
    for I in (2e4, -3e3):
        for mv in B:
            cl += [dict(kinds=[k], I=I, move=mv, how="coil") for k in KINDS]
            for a, b in itertools.product(KINDS, repeat=2):
                cl.append(dict(kinds=[a, b], I=I, move=mv, how="machine"))
                if a not in ("solenoid", "precalc") and b not in ("solenoid", "precalc") and (not q or mv):
                    cl.append(dict(kinds=[a, b], I=I, move=mv, how="circuit"))
    tab = []
    for n in (1, 2, 3, 4):
        for kinds in itertools.permutations(("coil", "circuit", "shaped", "multi"), n):
            for I in ([2e4, -1.5e5, 3e3], [-7.25, 0.0, 1e6]):
                for Ip in (2e5, -1e5):
                    for s in B:
                        if q and n == 4 and s:
                            continue
                        tab.append(dict(kinds=list(kinds), I=I, Ip=Ip, sensors=s))
    show = []
    for s, lim, ax, pause, c in itertools.product((1.0, -1.0), B, B, (1e-4, -1.0), B):
        for maxits in (50, 1):
            if q and (maxits == 1) != (not c) or (pause < 0 and ax):
                continue
            show.append(dict(s=s, limited=lim, axis=ax, pause=pause, con=c, maxits=maxits, rtol=5e-2))
    return CheckDef(
        "C30",
        [
            Section("equilibria", eq, run_eq, "configurations, grids, walls, limiters, sensors, signs x plot options"),
            Section("constraints", con, run_con, "0-3 X-points, 0-2 pairs, all ways to call"),
            Section("coils", cl, run_coils, "all coil kinds, moved or not, alone and all pairs in circuits and machines"),
            Section("tables", tab, run_tables, "all ordered machines of up to four components"),
            Section("solving with plots", show, run_show, "with and without axis, pause, control, limiter; converging and failing"),
        ],
        ["drawn with the Agg backend; colours and markers as documented (X-points red crosses, O-points green circles)"],
    )
