"""C18: sensors.

The reference computes fields from the coils' filaments, fluxes likewise,
enclosed currents by exact polygon clipping, and the plasma part from the
plasma flux and current on the grid.  Enumerated: all coil kinds against a
lattice of Rogowski outlines, all machines of up to three components, plasma
currents against outlines and angles on several grids, and all operation
histories up to a depth over switching sensors, changing currents, moving
coils, changing the plasma, measuring with and without plasma, and listing.
"""

import contextlib
import io
import itertools
import math
import numpy as np
from mc.core import CheckDef, Section, Violation
from mc import coils as mc_coils
from mc import eqs, ref

I0 = 1.7e4


# --- exact clipping
def clip(poly, tri):
    """Area of the part of the polygon inside a convex polygon"""
    if ref.shoelace(tri) < 0:
        tri = tri[::-1]
    out = [tuple(p) for p in poly]
    for k in range(len(tri)):
        a, b = tri[k], tri[(k + 1) % len(tri)]
        inp, out = out, []
        side = lambda p: (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
        for i in range(len(inp)):
            p, q = inp[i], inp[(i + 1) % len(inp)]
            sp, sq = side(p), side(q)
            if sp >= 0:
                out.append(p)
            if (sp > 0 and sq < 0) or (sp < 0 and sq > 0):
                t = sp / (sp - sq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        if not out:
            return 0.0
    return abs(ref.shoelace(out))


def contains(poly, p):
    return ref.in_polygon((float(p[0]), float(p[1])), poly) > 0


def ampturns(m, poly):
    """Turns of the coil (unit current) inside the outline"""
    k = m["kind"]
    if k in ("rect", "tri1", "L3", "precalc"):
        pieces = mc_coils.PIECES.get(k) or mc_coils.PIECES["rect"]
        dR, dZ = (m["dR"], m["dZ"]) if k != "precalc" else (0.0, 0.0)
        tot = sum(abs(ref.shoelace(t)) for t in pieces)
        ins = sum(clip(poly, [(r + dR, z + dZ) for r, z in t]) for t in pieces)
        return m["turns"] * ins / tot
    return sum(w for r, z, w in mc_coils.filaments(m) if contains(poly, (r, z)))


# --- circuits as lists of model coils with multipliers
def comp(kind, k=0, current=None, control=True):
    """A component of a machine: dict with members (model, multiplier)"""
    I = current if current is not None else (I0, -0.6 * I0, 0.3 * I0)[k]
    if kind == "circuit":
        a = mc_coils.model("point", turns=3, dR=0.2, dZ=0.35)
        b = mc_coils.model("rect", turns=2, dR=-0.2, dZ=-0.45)
        return dict(kind=kind, I=I, members=[[a, 0.5], [b, -2.0]])
    if kind == "pair":
        a = mc_coils.model("point", turns=2, dR=0.1, dZ=0.5)
        b = mc_coils.model("point", turns=2, dR=0.1, dZ=-0.5)
        return dict(kind=kind, I=I, members=[[a, 1.0], [b, -1.0]])
    m = mc_coils.model(kind, dR=0.07 * k, dZ=0.12 * k if kind not in ("precalc", "solenoid") else 0.0)
    if kind in ("precalc", "solenoid"):
        m["dR"] = 0.0
    return dict(kind=kind, I=I, members=[[m, 1.0]])


def build(c):
    from freegs.machine import Circuit, MirroredCoil

    if c["kind"] == "pair":
        m = c["members"][0][0]
        return MirroredCoil(1.0 + m["dR"], m["dZ"], current=c["I"], turns=m["turns"], symmetric=False)
    if c["kind"] == "circuit":
        return Circuit([("m%d" % k, mc_coils.build(m), f) for k, (m, f) in enumerate(c["members"])], current=c["I"])
    m = dict(c["members"][0][0])
    m["current"] = c["I"]
    return mc_coils.build(m)


def coil_field(comps, pts):
    out = np.zeros((3, len(pts)))
    tolp = tolb = 0.0
    for c in comps:
        for m, f in c["members"]:
            u = np.array(mc_coils.unit(m, tuple(pts))) * c["I"] * f
            t = mc_coils.tolerance(m["kind"])
            out = out + u
            tolp += t[0] * np.abs(u[0]).max()
            tolb += max(t[1], 2e-3) * np.hypot(u[1], u[2]).max()
    return out, tolp, tolb


def enclosed(comps, poly):
    return sum(c["I"] * f * ampturns(m, poly) for c in comps for m, f in c["members"])


def plasma_inside(R1, Z1, J, poly):
    dR, dZ = R1[1] - R1[0], Z1[1] - Z1[0]
    tot = 0.0
    for i, r in enumerate(R1):
        for j, z in enumerate(Z1):
            if J[i, j]:
                cell = [(r - dR / 2, z - dZ / 2), (r + dR / 2, z - dZ / 2), (r + dR / 2, z + dZ / 2), (r - dR / 2, z + dZ / 2)]
                tot += J[i, j] * clip(poly, cell)
    return tot


def outlines(tier):
    xs = [0.72, 0.97, 1.013, 1.22, 1.47]
    ys = [-0.63, -0.044, 0.0213, 0.41, 0.77]
    for a, b in itertools.combinations(xs, 2):
        for c, d in itertools.combinations(ys, 2):
            yield [(a, c), (b, c), (b, d), (a, d)]
    yield [(0.3, -0.6), (0.5, -0.6), (0.5, 0.8), (0.3, 0.8)]
    yield [(0.3, -0.31), (0.5, -0.31), (0.5, 0.11), (0.3, 0.11)]
    yield [(0.8, -0.3), (1.2, -0.3), (1.2, 0.3), (1.03, 0.3), (1.03, -0.02), (0.98, -0.02), (0.98, 0.3), (0.8, 0.3)]
    yield [(0.8, -0.7), (1.3, 0.0), (0.8, 0.7)]
    yield [(0.1, -2.0), (3.0, -2.0), (3.0, 2.0), (0.1, 2.0)]


def run_rogowski(case, ck):
    """One coil, all outlines, orientations and starting points"""
    from freegs.machine import Machine, RogowskiSensor

    c = comp(case["kind"], case["k"], current=case["I"])
    coil = build(c)
    polys = list(outlines(case["tier"]))
    sensors, want = [], []
    for n, p in enumerate(polys):
        v = p[n % len(p) :] + p[: n % len(p)]
        if n % 2:
            v = v[::-1]
        sensors.append(RogowskiSensor([x[0] for x in v], [x[1] for x in v], name="r%d" % n))
        want.append(enclosed([c], p))
    tok = Machine([("c", coil)], sensors=sensors)
    tok.takeMeasurements()
    for p, s, w in zip(polys, sensors, want):
        ck.close(s.measurement, w, "current of %s inside %s" % (case["kind"], p), rtol=1e-9, atol=1e-7 * abs(case["I"]))
        ck.step()
    ck.expect(near(coil.current, c["I"]), "coil current after measuring")
    ck.state(case["kind"], case["k"], case["I"])
    ck.trace()
    ck.outcome(case["kind"], len(set(round(w, 3) for w in want)) > 2)


def near(a, b):
    return abs(a - b) <= 1e-12 * (abs(a) + abs(b))


ANG = [0.0, math.pi / 2, math.pi, -2.2, 0.7, 4.0]
LOC = ((0.35, 0.2), (1.6, 0.9), (2.1, -0.7), (0.6, -0.3))


def run_machines(case, ck):
    from freegs.machine import Machine, RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor

    comps = [comp(kind, k) for k, kind in enumerate(case["kinds"])]
    coils = [("c%d" % k, build(c)) for k, c in enumerate(comps)]
    polys = [list(outlines(0))[k] for k in (0, 30, 57, 99, 101, 103, 104)]
    S = []
    for r, z in LOC:
        for t in ANG:
            S.append(("B", (r, z), t, PoloidalFieldSensor(r, z, t)))
        S.append(("psi", (r, z), None, FluxLoopSensor(r, z)))
    for p in polys:
        S.append(("I", p, None, RogowskiSensor([x[0] for x in p], [x[1] for x in p])))
    if case["rev"]:
        S = S[::-1]
    tok = Machine(coils, sensors=[s[3] for s in S])
    tok.takeMeasurements()
    f, tp, tb = coil_field(comps, LOC)
    where = {p: k for k, p in enumerate(LOC)}
    for kind, at, t, s in S:
        if kind == "I":
            ck.close(s.measurement, enclosed(comps, at), "current of %s in %s" % (case["kinds"], at), rtol=1e-9, atol=1e-6 * I0)
        elif kind == "psi":
            ck.close(s.measurement, f[0][where[at]], "flux of %s at %s" % (case["kinds"], at), rtol=1e-8, atol=tp)
        else:
            k = where[at]
            ck.close(s.measurement, f[1][k] * math.cos(t) + f[2][k] * math.sin(t), "field of %s at %s, angle %g" % (case["kinds"], at, t), rtol=0, atol=tb + 1e-12)
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("machine", len(case["kinds"]))


GR = {"17": dict(Rmin=0.2, Rmax=1.8, Zmin=-0.9, Zmax=1.0, nx=17, ny=17), "9x17": dict(Rmin=0.3, Rmax=1.7, Zmin=-1.0, Zmax=1.0, nx=9, ny=17), "33x17": dict(Rmin=0.2, Rmax=2.2, Zmin=-1.0, Zmax=1.0, nx=33, ny=17)}
PJ = {
    "none": lambda R, Z: 0 * R,
    "bump": lambda R, Z: eqs.bump(R, Z, 1.0, 0.1, 0.45, 2e5, 1.2),
    "neg": lambda R, Z: -eqs.bump(R, Z, 0.9, -0.2, 0.4, 1e5, 1.1),
    "two": lambda R, Z: eqs.bump(R, Z, 0.7, 0.3, 0.3, 1e5, 1.0) - eqs.bump(R, Z, 1.3, -0.3, 0.3, 5e4, 1.0),
}


def plasma_value(kind, at, t, psi, R1, Z1, J):
    from scipy.interpolate import RectBivariateSpline

    f = RectBivariateSpline(R1, Z1, psi)
    if kind == "psi":
        return float(f(at[0], at[1], grid=False))
    if kind == "B":
        return float(-f(at[0], at[1], dy=1, grid=False) / at[0] * math.cos(t) + f(at[0], at[1], dx=1, grid=False) / at[0] * math.sin(t))
    return plasma_inside(R1, Z1, J, at)


PLOC = [(0.7, 0.1), (1.05, -0.3), (1.5, 0.6)]


def run_plasma(case, ck):
    import freegs
    from freegs.machine import Machine, RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor

    comps = [comp(k) for k in case["kinds"]]
    coils = [("c%d" % k, build(c)) for k, c in enumerate(comps)]
    S = []
    for p in PLOC:
        S += [("B", p, t, PoloidalFieldSensor(p[0], p[1], t)) for t in ANG[:4]]
        S += [("psi", p, None, FluxLoopSensor(*p))]
    polys = [list(outlines(0))[k] for k in case["polys"]]
    for p in polys:
        S.append(("I", p, None, RogowskiSensor([x[0] for x in p], [x[1] for x in p])))
    tok = Machine(coils, sensors=[s[3] for s in S])
    eq = freegs.Equilibrium(tok, **GR[case["grid"]])
    J = PJ[case["J"]](eq.R, eq.Z)
    eq.solve(eqs.StubProfile(), Jtor=J)
    psi = np.array(eq.plasma_psi)
    f, tp, tb = coil_field(comps, tuple(PLOC))
    for what in case["order"]:
        if what == "eq":
            tok.takeMeasurements(eq)
        elif what == "kw":
            tok.takeMeasurements(eq=eq)
        elif what == "print":
            with contextlib.redirect_stdout(io.StringIO()):
                tok.printMeasurements(eq)
        else:
            tok.takeMeasurements()
        for kind, at, t, s in S:
            if kind == "I":
                want, tol = enclosed(comps, at), 1e-6 * 2e5
            else:
                k = PLOC.index(at)
                want = f[0][k] if kind == "psi" else f[1][k] * math.cos(t) + f[2][k] * math.sin(t)
                tol = tp + 1e-9 if kind == "psi" else tb + 1e-9
            if what != "coils":
                want += plasma_value(kind, at, t, psi, eq.R_1D, eq.Z_1D, J)
            ck.close(s.measurement, want, "%s at %s %s (%s)" % (kind, at, t, what), rtol=1e-7, atol=tol)
            ck.step()
        ck.expect(np.array_equal(eq.plasma_psi, psi) and np.array_equal(eq.Jtor, J), "equilibrium after measuring")
    ck.state(case)
    ck.trace()
    ck.outcome(case["J"], case["grid"])


# --- histories
OPS = ["offB", "onB", "offF", "onF", "offI", "onI", "current", "move", "circuit", "plasma", "take", "takeeq", "list", "listeq", "turn", "single"]


class Run:
    def __init__(self):
        import freegs
        from freegs.machine import Machine, RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor

        self.comps = [comp("point"), comp("circuit")]
        self.coils = [("P", build(self.comps[0])), ("C", build(self.comps[1]))]
        self.poly = [(0.7, -0.6), (1.3, -0.6), (1.3, 0.2), (0.7, 0.2)]
        self.at = (1.45, 0.55)
        self.theta = 0.7
        B = PoloidalFieldSensor(self.at[0], self.at[1], self.theta, name="B")
        F = FluxLoopSensor(*self.at)
        I = RogowskiSensor([p[0] for p in self.poly], [p[1] for p in self.poly], name="I", measurement=-5.0)
        self.sensors = dict(B=B, F=F, I=I)
        self.tok = Machine(self.coils, sensors=[B, F, I])
        self.eq = freegs.Equilibrium(self.tok, **GR["9x17"])
        self.on = dict(B=True, F=True, I=True)
        self.val = dict(B=None, F=None, I=-5.0)
        self.n = 0
        self.setJ("bump")

    def setJ(self, name):
        self.Jname = name
        self.J = PJ[name](self.eq.R, self.eq.Z)
        self.eq.solve(eqs.StubProfile(), Jtor=self.J)
        self.psi = np.array(self.eq.plasma_psi)

    def truth(self, plasma):
        f, tp, tb = coil_field(self.comps, (self.at,))
        v = dict(B=f[1][0] * math.cos(self.theta) + f[2][0] * math.sin(self.theta), F=f[0][0], I=enclosed(self.comps, self.poly))
        if plasma:
            a = (self.psi, self.eq.R_1D, self.eq.Z_1D, self.J)
            v["B"] += plasma_value("B", self.at, self.theta, *a)
            v["F"] += plasma_value("psi", self.at, None, *a)
            v["I"] += plasma_value("I", self.poly, None, *a)
        return {k: (v[k], dict(B=tb, F=tp, I=0.1)[k] + 1e-9) for k in v}

    def measured(self, plasma, only=None):
        t = self.truth(plasma)
        for k in self.on:
            if self.on[k] and (only is None or k == only):
                self.val[k] = t[k]

    def do(self, op):
        self.n += 1
        n = self.n
        if op.startswith("off") or op.startswith("on"):
            k = op[-1]
            self.on[k] = op.startswith("on")
            self.sensors[k].status = self.on[k]
        elif op == "current":
            self.comps[0]["I"] = 1e4 + 31.0 * n
            self.tok["P"].current = self.comps[0]["I"]
        elif op == "move":
            # in or out of the outline
            m = self.comps[0]["members"][0][0]
            d = -0.35 if m["dZ"] > 0.2 else 0.35
            m["dZ"] += d
            self.tok["P"].Z += d
            self.comps[0]["members"][0][0]["dR"] += 0.02
            self.tok["P"].R += 0.02
        elif op == "circuit":
            self.comps[1]["I"] = -2e3 - 50.0 * n
            self.tok["C"].current = self.comps[1]["I"]
        elif op == "plasma":
            self.setJ({"bump": "neg", "neg": "two", "two": "none", "none": "bump"}[self.Jname])
        elif op == "turn":
            self.theta += 0.9
            self.sensors["B"].theta += 0.9
        elif op == "take":
            self.tok.takeMeasurements()
            self.measured(False)
        elif op == "takeeq":
            self.tok.takeMeasurements(self.eq)
            self.measured(True)
        elif op == "single":
            self.sensors["F"].get_measure(self.tok, self.eq)
            self.measured(True, "F")
        elif op in ("list", "listeq"):
            plasma = op == "listeq"
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                if plasma:
                    self.tok.printMeasurements(self.eq)
                else:
                    self.tok.printMeasurements()
            self.listed = out.getvalue()
            self.measured(plasma)

    def check(self, ck, op):
        for k, s in self.sensors.items():
            want = self.val[k]
            if want is None or not isinstance(want, tuple):
                ck.same(s.measurement, want, "sensor %s, never measured" % k)
            else:
                ck.close(s.measurement, want[0], "sensor %s after %s" % (k, op), rtol=1e-7, atol=want[1])
                # keep what was actually there: later comparisons of a disabled sensor are exact
                self.val[k] = (float(s.measurement), 0.0)
            ck.same(bool(s.status), self.on[k], "status of %s" % k)
            if op in ("list", "listeq"):
                ck.expect(str(s.measurement) in self.listed, "measurement of %s is listed" % k)
        ck.expect(near(self.tok["P"].current, self.comps[0]["I"]) and near(self.tok["C"].current, self.comps[1]["I"]), "coil currents after " + op)
        m = self.comps[0]["members"][0][0]
        ck.close([self.tok["P"].R, self.tok["P"].Z], [1.0 + m["dR"], m["dZ"]], "coil position", atol=1e-12)
        ck.expect(np.array_equal(self.eq.plasma_psi, self.psi), "plasma flux after " + op)


def run_history(case, ck):
    r = Run()
    for op in case["ops"]:
        r.do(op)
        r.check(ck, op)
        ck.step()
    ck.state(case["ops"])
    ck.trace()
    ck.outcome(len(case["ops"]), *[r.on[k] for k in "BFI"])


def run_empty(case, ck):
    """Machines without sensors"""
    from freegs.machine import Machine

    c = comp("point")
    tok = Machine([("c", build(c))]) if case["how"] == "default" else Machine([("c", build(c))], sensors=[])
    with contextlib.redirect_stdout(io.StringIO()):
        for op in case["ops"]:
            if op == "take":
                tok.takeMeasurements()
            else:
                tok.printMeasurements()
            ck.step()
    ck.expect(not tok.sensors, "no sensors")
    ck.state(case)
    ck.trace()


def check(tier):
    q = tier == "quick"
    kinds = list(mc_coils.KINDS) + ["circuit", "pair"]
    rog = [dict(kind=k, k=i, I=I, tier=tier) for k in kinds for i in ((0, 1, 2) if not q else (0, 1)) for I in (I0, -0.4 * I0, 0.0)]
    # filauto places its filaments itself; which are inside is its own matter
    rog = [c for c in rog if c["kind"] != "filauto"]
    k2 = [k for k in kinds if k != "filauto"]
    mach = [dict(kinds=[k], rev=r) for k in k2 for r in (False, True)]
    mach += [dict(kinds=list(p), rev=False) for p in itertools.product(k2, repeat=2)]
    if not q:
        mach += [dict(kinds=list(p), rev=False) for p in itertools.product(["point", "L3", "fil", "mirror-", "circuit", "solenoid"], repeat=3)]
    pl = []
    for grid in GR:
        for J in PJ:
            for ks in ([], ["point"], ["circuit", "rect"]):
                for order in (["eq"], ["coils", "print"], ["kw", "coils"]):
                    n = 105 if not q else 105
                    sel = [0, 14, 37, 58, 77, 99, 102, 103, 104] if q else list(range(0, n, 4)) + [102, 103]
                    pl.append(dict(grid=grid, J=J, kinds=ks, order=order, polys=sel))
    hist = [dict(ops=list(o)) for d in ((1, 2) if q else (1, 2, 3)) for o in itertools.product(OPS, repeat=d)]
    if q:
        short = ["offB", "onB", "offI", "current", "plasma", "move", "take", "takeeq"]
        hist += [dict(ops=list(o)) for o in itertools.product(short, repeat=3) if o[-1] in ("take", "takeeq") or o[1] in ("take", "takeeq")]
    else:
        short = ["offI", "onI", "offF", "current", "plasma", "take", "takeeq"]
        hist += [dict(ops=list(o)) for o in itertools.product(short, repeat=4)]
    empty = [dict(how=h, ops=list(o)) for h in ("default", "list") for o in (["take"], ["list"], ["take", "list"])]
    return CheckDef(
        "C18",
        [
            Section("enclosed", rog, run_rogowski, "all coil kinds, currents of both signs and zero, 105 outlines"),
            Section("machines", mach, run_machines, "all machines of up to %d components, four locations, six angles" % (2 if q else 3)),
            Section("plasma", pl, run_plasma, "three grids, four plasma currents, with and without coils"),
            Section("histories", hist, run_history, "all sequences of up to %d of 16 operations, longer ones of 8" % (2 if q else 3)),
            Section("no sensors", empty, run_empty, "measuring and listing without sensors"),
        ],
        ["equilibria that have been solved (the toroidal current is known)", "no coil centre or filament exactly on an outline"],
    )
