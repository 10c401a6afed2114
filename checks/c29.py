"""C29: equilibria in one session do not influence each other.

Interleavings: two independent sessions, each a fixed list of steps (create,
solve, change, look, save, read, regrid ...).  Every interleaving of their steps
is executed in one process; each session must report at every step exactly what
it reports when it runs alone in a process of its own.

Copies: a deep copy is taken of an equilibrium, then every sequence of
operations on the original and the copy is executed.  Whichever was not touched
must report exactly what it did before; each must report what an equilibrium
which was never copied reports after its own operations.
"""

import copy
import functools
import io
import itertools
import json
import os
import subprocess
import sys
import tempfile
import numpy as np
from mc.core import CheckDef, Section, quiet
from mc.eqs import StubProfile, bump

# --- observables ------------------------------------------------------------
OR = np.array([0.63, 0.95, 1.31, 1.52])
OZ = np.array([0.22, -0.41, 0.33, -0.07])


def look(eq, deep=True):
    """What an equilibrium reports: name -> list of numbers"""
    m = eq.tokamak
    d = {
        "psi": eq.psi().ravel()[::7],
        "plasma": eq.plasma_psi.ravel()[::5],
        "flux": eq.psiRZ(OR, OZ),
        "Br": eq.Br(OR, OZ),
        "Bz": eq.Bz(OR, OZ),
        "coils": m.psi(OR, OZ),
        "currents": [float(v) for v in m.getCurrents().values()],
        "control": [float(bool(c.control)) for _, c in m.coils],
        "Ip": [eq.plasmaCurrent()],
        "grid": [eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax, eq.nx, eq.ny, eq.order],
        "bndry": [] if getattr(eq, "psi_bndry", None) is None else [eq.psi_bndry],
        "wall": [] if m.wall is None else list(m.wall.R) + list(m.wall.Z),
        "limited": [float(bool(eq.check_limited)), float(bool(eq.is_limited))],
        "vector": m.controlCurrents(),
    }
    if m.sensors:
        d["sensors"] = [np.nan if s.measurement is None else float(np.ravel(s.measurement)[0]) for s in m.sensors]
        d["status"] = [float(bool(s.status)) for s in m.sensors]
    if deep and getattr(eq, "_profiles", None) is not None and getattr(eq, "psi_bndry", None) is not None:
        d["pressure"] = eq.pressure(np.linspace(0.0, 1.0, 5))
        d["fpol"] = eq.fpol(np.linspace(0.0, 1.0, 5))
        d["pprime"] = eq.pprime(np.linspace(0.0, 1.0, 5))
        d["fvac"] = [eq.fvac()]
        f = []
        for v in eq.getForces().values():
            f += [x for w in (v.values() if isinstance(v, dict) else [v]) for x in np.ravel(w)]
        d["forces"] = f
        d["Btor"] = eq.Btor(OR, OZ)
    return {k: [float(x) for x in np.ravel(v)] for k, v in d.items()}


def more(eq):
    """Slower diagnostics"""
    d = {
        "q": eq.q(np.array([0.3, 0.8])),
        "sep": eq.separatrix(npoints=24).ravel(),
        "axis": eq.magneticAxis()[:3],
        "volume": [eq.plasmaVolume()],
        "elongation": [eq.elongation(npoints=36)],
        "betap": [eq.poloidalBeta()],
        "li": [eq.internalInductance()],
    }
    return {k: [float(x) for x in np.ravel(v)] for k, v in d.items()}


def compare(ck, got, want, what, exact=False):
    ck.same(sorted(got), sorted(want), what + ": reports")
    for k in want:
        ck.same(len(got[k]), len(want[k]), "%s: number of %s" % (what, k))
        a, b = np.array(got[k]), np.array(want[k])
        same = np.array_equal(a, b, equal_nan=True)
        if not same:
            # rounding may differ between processes, not more
            s = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0.0
            ok = np.array_equal(np.isnan(a), np.isnan(b)) and np.all(np.abs(a - b)[np.isfinite(b)] <= (0.0 if exact else 1e-7 * s + 1e-12))
            ck.expect(ok, "%s: %s is %r, expected %r" % (what, k, got[k][:8], want[k][:8]))
        else:
            ck.expect(True, "")


# --- sessions ---------------------------------------------------------------
def _machine(kind):
    from freegs.machine import Machine, Circuit, Solenoid, Wall, PoloidalFieldSensor, FluxLoopSensor
    from freegs.coil import Coil
    from freegs.shaped_coil import ShapedCoil
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil
    from freegs import machine

    if kind == "test":
        return machine.TestTokamak()
    if kind == "limited":
        m = machine.TestTokamak()
        m.wall = Wall([0.45, 0.45, 1.45, 1.45], [-0.7, 0.7, 0.7, -0.7])
        return m
    if kind == "moved":
        m = machine.TestTokamak()
        for n in ("P2L", "P2U"):
            m[n].R = m[n].R + 0.15
        return m
    # all sorts of coils
    def box(r, z):
        return ShapedCoil([(r - 0.05, z - 0.05), (r - 0.05, z + 0.05), (r + 0.05, z + 0.05), (r + 0.05, z - 0.05)])

    m = Machine(
        [
            ("X", Circuit([("XL", Coil(1.0, -1.1), 1.0), ("XU", Coil(1.0, 1.1), 1.0)])),
            ("P2L", box(1.75, -0.6)),
            ("P2U", MultiCoil([1.7, 1.8], [0.6, 0.6])),
            ("F", FilamentCoil([2.3, 2.4, 2.35], [0.1, 0.1, 0.2])),
            ("S", Solenoid(0.05, -0.8, 0.8, 12)),
        ],
        Wall([0.2, 0.2, 1.6, 1.6], [-0.85, 0.85, 0.85, -0.85]),
        sensors=[PoloidalFieldSensor(1.5, 0.2, 0.4, name="b"), FluxLoopSensor(0.6, -0.3, name="f")],
    )
    m["F"].current, m["S"].current = -5e3, 1e3
    m["S"].control = False
    return m


# name: machine, grid, profile, sign, boundary, order, X-points, limiter, last step
SPEC = {
    "A": dict(m="test", g=(0.1, 2.0, -1.0, 1.0, 33, 33), p="paxis", s=1.0, o=4, b="freeBoundary", z=0.6, lim=False, end="file"),
    # same grid shape, other domain, reversed current
    "B": dict(m="test", g=(0.15, 2.1, -1.05, 1.0, 33, 33), p="betap", s=-1.0, o=2, b="freeBoundaryHagenow", z=0.65, lim=False, end="refine"),
    # same grid and boundary as A, other coils
    "C": dict(m="mixed", g=(0.1, 2.0, -1.0, 1.0, 33, 33), p="poly", s=1.0, o=4, b="freeBoundary", z=0.62, lim=False, end="domain"),
    # same machine class and grid as A, coils moved and other numbers
    "D": dict(m="moved", g=(0.1, 2.0, -1.0, 1.0, 33, 33), p="paxis", s=-1.0, o=4, b="freeBoundary", z=0.62, lim=False, end="geqdsk"),
    # same shape and radii as A, other heights; sensors are added
    "F": dict(m="test", g=(0.1, 2.0, -1.05, 1.1, 33, 33), p="paxis", s=1.0, o=4, b="freeBoundary", z=0.6, lim=False, end="refine"),
    # limiter, transposed shape
    "E": dict(m="limited", g=(0.1, 2.0, -1.0, 1.0, 33, 65), p="paxis", s=1.0, o=4, b="freeBoundaryHagenow", z=0.6, lim=True, end="trace"),
}


def _profile(kind, eq, s):
    import freegs

    if kind == "paxis":
        return freegs.jtor.ConstrainPaxisIp(eq, 1e3, s * 2e5, s * 2.0)
    if kind == "betap":
        return freegs.jtor.ConstrainBetapIp(eq, 0.4, s * 1.5e5, s * 1.7, alpha_m=1.0, alpha_n=1.5)
    return freegs.jtor.ConstrainPaxisIp(eq, 2e3, s * 2.5e5, s * 1.5, alpha_m=2.0, alpha_n=1.0)


class Session:
    """One user's work, in steps; each returns what is seen afterwards"""

    N = 3

    def __init__(self, name):
        self.name, self.sp, self.k = name, SPEC[name], 0

    def step(self):
        self.k += 1
        with quiet():
            return getattr(self, "step%d" % self.k)()

    def step1(self):
        """Create and solve"""
        import freegs
        from freegs import boundary

        sp = self.sp
        g = sp["g"]
        self.m = _machine(sp["m"])
        self.eq = freegs.Equilibrium(
            self.m, Rmin=g[0], Rmax=g[1], Zmin=g[2], Zmax=g[3], nx=g[4], ny=g[5],
            order=sp["o"], boundary=getattr(boundary, sp["b"]), check_limited=sp["lim"],
        )
        self.prof = _profile(sp["p"], self.eq, sp["s"])
        z = sp["z"]
        self.con = freegs.control.constrain(xpoints=[(1.1, -z), (1.1, z + 0.2)], isoflux=[(1.1, -z, 1.1, z + 0.2)])
        if self.name == "C":
            self.eq.setSolverVcycle(nlevels=2, ncycle=2, niter=20, direct=True)
        freegs.solve(self.eq, self.prof, self.con, rtol=5e-2, check_limited=sp["lim"])
        return look(self.eq)

    def step2(self):
        """Change the machine by hand and update"""
        m, eq = self.m, self.eq
        n, c = m.coils[1]
        c.current = c.current * 1.02
        m.coils[-1][1].control = False
        c.Z = c.Z - 0.01
        eq._pgreen = m.createPsiGreens(eq.R, eq.Z)
        eq.solve(self.prof)
        self.con(eq)
        if self.name == "F":
            from freegs.machine import FluxLoopSensor

            m.sensors.append(FluxLoopSensor(0.6, -0.3, name="added"))
        if m.sensors:
            m.takeMeasurements(eq)
            m.sensors[0].status = False
        return dict(look(eq), **more(eq))

    def step3(self):
        """Export, import, regrid or trace"""
        import freegs

        eq, end = self.eq, self.sp["end"]
        if end == "file":
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "e.h5")
                with freegs.OutputFile(p, "w") as f:
                    f.write_equilibrium(eq)
                with freegs.OutputFile(p, "r") as f:
                    other = f.read_equilibrium()
            other.tokamak.coils[0][1].current += 1e3
            other.tokamak.wall = None
            r = look(other, deep=False)
        elif end == "geqdsk":
            from freegs import geqdsk

            s = io.StringIO()
            geqdsk.write(eq, s)
            s.seek(0)
            m = _machine(self.sp["m"])
            other = geqdsk.read(s, m, rtol=5e-2, cocos=1)
            r = look(other, deep=False)
        elif end == "refine":
            other = freegs.equilibrium.refine(eq)
            other.solve(self.prof)
            r = look(other)
        elif end == "domain":
            other = freegs.equilibrium.newDomain(eq, Rmin=0.15, nx=33)
            other.solve(other._profiles)
            other.plasma_psi[:] += 1.0
            other.check_limited = True
            r = look(other, deep=False)
        else:
            from freegs.fieldtracer import FieldTracer

            t = FieldTracer(eq).follow([1.2, 1.25], [0.1, 0.0], np.linspace(0, 3.0, 5))
            r = {"line": [float(x) for x in t.ravel()]}
        r.update({"own " + k: v for k, v in look(eq).items()})
        return r


def solo(name):
    s = Session(name)
    return [s.step() for _ in range(s.N)]


_SOLO = {}


def reference():
    """Each session alone, in a process of its own"""
    if not _SOLO:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = "import sys, json; sys.path.insert(0, %r)\nfrom mc import core; core.prepare()\nfrom checks import c29\nr = c29.solo(sys.argv[1])\nsys.stdout.write('RESULT' + json.dumps(r))" % here
        ps = [(n, subprocess.Popen([sys.executable, "-W", "ignore", "-c", code, n], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)) for n in SPEC]
        for n, p in ps:
            out, err = p.communicate(timeout=300)
            _SOLO[n] = json.loads(out.split("RESULT", 1)[1]) if "RESULT" in out else "session %s fails alone: %s" % (n, err[-600:])
    return _SOLO


def run_inter(case, ck):
    names, order = case["names"], case["order"]
    for n in names:
        want = _SOLO[n]
        ck.expect(not isinstance(want, str), str(want))
    ss = [Session(n) for n in names]
    for pos, i in enumerate(order):
        got = ss[i].step()
        k = ss[i].k
        compare(ck, got, _SOLO[names[i]][k - 1], "session %d (%s) at step %d in the interleaving %s" % (i, names[i], k, "".join("%s%d" % (names[j], j) for j in order[: pos + 1])))
        ck.step()
        ck.state(names, order[: pos + 1])
    ck.trace()
    ck.outcome(*names)


# --- copies -----------------------------------------------------------------
def base(kind):
    import freegs
    from freegs import boundary

    if kind == "solved":
        s = Session("C")
        s.step()
        return s.eq
    m = _machine("mixed")
    eq = freegs.Equilibrium(m, Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=17, ny=33, order=2)
    if kind == "multigrid":
        eq.setSolverVcycle(nlevels=3, ncycle=2, niter=10, direct=True)
    for (n, c), v in zip(m.coils, (2e5, -5e4, -6e4, 1e4, 2e3)):
        c.current = v
    eq._constraints = freegs.control.constrain(xpoints=[(1.1, -0.6)], isoflux=[(1.1, -0.6, 1.1, 0.7)])
    eq.solve(StubProfile(J=None), Jtor=bump(eq.R, eq.Z, 1.0, 0.0, 0.42, 3e5))
    return eq


def operate(eq, op):
    import freegs

    m = eq.tokamak
    if op == "circuit":
        m["X"].current = m["X"].current * 1.1 + 10.0
    elif op == "coil":
        m["P2U"].current += 2e3
    elif op == "member":
        m["X"]["XL"].turns = 3
        eq._pgreen = m.createPsiGreens(eq.R, eq.Z)
    elif op == "control":
        m["F"].control = not m["F"].control
    elif op == "move":
        for n in ("P2L", "P2U", "F"):
            m[n].Z = m[n].Z + 0.03
            m[n].R = m[n].R - 0.02
        eq._pgreen = m.createPsiGreens(eq.R, eq.Z)
    elif op == "vector":
        m.setControlCurrents([1e4 + 1e3 * i for i in range(len(m.controlCurrents()))])
    elif op == "constrain":
        eq._constraints(eq)
    elif op == "resolve":
        eq.solve(eq._profiles, Jtor=eq.Jtor * 1.05)
    elif op == "inplace":
        eq.plasma_psi[3:9, 4:8] *= 1.1
        eq._updatePlasmaPsi(eq.plasma_psi)
    elif op == "wall":
        m.wall.R[0] += 0.05
        m.wall.Z[1] -= 0.03
    elif op == "newwall":
        m.wall = freegs.machine.Wall([0.3, 0.3, 1.5, 1.5], [-0.6, 0.6, 0.6, -0.6])
        eq.check_limited = True
    elif op == "measure":
        m.takeMeasurements(eq)
    elif op == "sensor":
        m.sensors[1].status = not m.sensors[1].status
        m.sensors[0].R = m.sensors[0].R + 0.1
        m.takeMeasurements(eq)
    elif op == "profile":
        p = eq._profiles
        if isinstance(p, StubProfile):
            p.p0 *= 2.0
        else:
            p.L = p.L * 1.5
            p.Beta0 = p.Beta0 * 0.9
    elif op == "coils":
        m.coils.append(("extra%d" % len(m.coils), freegs.machine.Coil(2.0, 0.4, current=5e3)))
        eq._pgreen = m.createPsiGreens(eq.R, eq.Z)
    elif op == "solver":
        eq.setSolverVcycle(nlevels=2, ncycle=1, niter=5, direct=True)
        eq.solve(eq._profiles, Jtor=eq.Jtor)
    elif op == "picard":
        freegs.solve(eq, eq._profiles, eq._constraints, rtol=5e-2)
    elif op == "look":
        more(eq)
    elif op == "refine":
        o = freegs.equilibrium.refine(eq)
        o.plasma_psi[:] *= 2.0
    else:
        raise KeyError(op)


OPS = ["circuit", "coil", "member", "control", "move", "vector", "constrain", "resolve", "inplace", "wall", "newwall", "measure", "sensor", "profile", "coils", "solver", "refine"]


@functools.lru_cache(None)
def expected(kind, ops):
    eq = base(kind)
    for o in ops:
        operate(eq, o)
    return look(eq)


def run_copy(case, ck):
    kind, how, prog = case["kind"], case["how"], [tuple(p) for p in case["prog"]]
    e = base(kind)
    if how == "copy":
        objs = [e, copy.deepcopy(e)]
    elif how == "copy of copy":
        objs = [e, copy.deepcopy(copy.deepcopy(e))]
    elif how == "twins":
        # two copies, the original is thrown away
        objs = [copy.deepcopy(e), copy.deepcopy(e)]
    else:
        # copied together: still independent of the originals
        t = copy.deepcopy((e, e._profiles, e._constraints))
        ck.expect(t[0]._profiles is t[1], "copied together: the copy has the copied profiles")
        objs = [e, t[0]]
    seen = [look(o) for o in objs]
    compare(ck, seen[1], seen[0], "%s of %s reports the same" % (how, kind), exact=True)
    done = [(), ()]
    for w, op in prog:
        operate(objs[w], op)
        done[w] = done[w] + (op,)
        ck.step()
        now = [look(o) for o in objs]
        compare(ck, now[1 - w], seen[1 - w], "%s of %s: %s untouched by %s" % (how, kind, ("original", "copy")[1 - w], prog[: len(done[0]) + len(done[1])]), exact=True)
        compare(ck, now[w], expected(kind, done[w]), "%s of %s: %s after %s (in %s)" % (how, kind, ("original", "copy")[w], done[w], prog))
        seen = now
        ck.state(kind, how, done)
    ck.trace()
    ck.outcome(kind, how)


HELD = {
    "psi": lambda e: e.psi(),
    "psiN": lambda e: e.psiN(),
    "psiRZ": lambda e: e.psiRZ(OR, OZ),
    "Br": lambda e: e.Br(e.R, e.Z),
    "Btor": lambda e: e.Btor(OR, OZ),
    "separatrix": lambda e: e.separatrix(npoints=12),
    "currents": lambda e: e.tokamak.getCurrents(),
    "vector": lambda e: e.tokamak.controlCurrents(),
    "response": lambda e: e.tokamak.controlPsi(OR, OZ),
    "forces": lambda e: e.getForces(),
    "q": lambda e: e.q(np.array([0.3, 0.8])),
    "axis": lambda e: e.magneticAxis(),
    "profile": lambda e: e.pressure(np.linspace(0, 1, 5)),
}


def run_held(case, ck):
    """Results taken earlier stay as they were; so does the flux an equilibrium was started from"""
    import freegs

    kind, ops, how = case["kind"], case["ops"], case["how"]
    e = base(kind)
    if how == "results":
        with quiet():
            held = {k: f(e) for k, f in HELD.items()}
        keep = copy.deepcopy(held)
        for o in ops:
            operate(e, o)
            ck.step()
        for k in held:
            ck.expect(pickled(held[k]) == pickled(keep[k]), "%s taken from %s before %s stays as it was" % (k, kind, ops))
    else:
        # started from the same array, each with its own machine
        given = e.psi() if how == "array" else e.plasma_psi
        before = given.copy()
        new = freegs.Equilibrium(copy.deepcopy(e.tokamak), Rmin=e.Rmin, Rmax=e.Rmax, Zmin=e.Zmin, Zmax=e.Zmax, nx=e.nx, ny=e.ny, psi=given)
        new.solve(copy.deepcopy(e._profiles) if kind != "solved" else StubProfile(), Jtor=e.Jtor)
        new._constraints = copy.deepcopy(e._constraints)
        ck.expect(np.array_equal(given, before), "flux given to a new equilibrium is not changed by solving")
        seen = [look(e), look(new)]
        for w, o in enumerate(ops):
            operate((e, new)[w], o)
            now = [look(e), look(new)]
            compare(ck, now[1 - w], seen[1 - w], "started from the %s of %s, %s: untouched by %s" % (how, kind, ("original", "new")[1 - w], o), exact=True)
            seen = now
            ck.step()
        ck.expect(np.array_equal(given, before), "flux given to a new equilibrium is not changed by %s" % ops)
    ck.state(kind, how, ops)
    ck.trace()
    ck.outcome(kind, how)


# --- objects made with default arguments ------------------------------------
def _wire(k, v):
    def f(c):
        try:
            c.polarity[k] = v
        except TypeError:
            p = list(c.polarity)
            p[k] = v
            c.polarity = p

    return f


def _defaults():
    """name -> (make, {change: function}, observe)"""
    import freegs
    from freegs.coil import Coil
    from freegs.multi_coil import MultiCoil
    from freegs.shaped_coil import ShapedCoil
    from freegs.machine import Circuit, EmptyTokamak, Machine, Solenoid, Wall

    def coil_seen(c):
        return [c.psi(OR, OZ), c.controlPsi(OR, OZ), c.controlBr(OR, OZ), c.R, c.Z, c.area, c.current, c.turns, bool(c.control)]

    coil_changes = {
        "current": lambda c: setattr(c, "current", 3e4),
        "control": lambda c: setattr(c, "control", False),
        "turns": lambda c: setattr(c, "turns", 7),
        "move": lambda c: (setattr(c, "R", 1.7), setattr(c, "Z", -0.9)),
    }
    wiring = {"wire0": _wire(0, 2.0), "wire1": _wire(1, -1.0)}
    machine_changes = {
        "coil": lambda m: m.coils.append(("X", Coil(1.3, 0.8, current=1e5))),
        "wall": lambda m: setattr(m, "wall", Wall([0.5, 1.0, 1.0, 0.5], [-0.3, -0.3, 0.3, 0.3])),
    }

    def machine_seen(m):
        return [[n for n, _ in m.coils], np.zeros(4) + m.psi(OR, OZ), m.wall is None, m.controlCurrents()]

    def eq_seen(e):
        return machine_seen(e.tokamak) + [e.plasma_psi + e.tokamak.psi(e.R, e.Z), e.psiRZ(OR, OZ), e.plasmaCurrent(), bool(e.is_limited)]

    def bump_psi(e):
        e.plasma_psi[3:5, 3:5] += 1.0

    def con_seen(c):
        return [[list(x) for x in v] for v in (c.xpoints, c.isoflux, c.psivals)] + [c.current_lims is None, c.max_total_current is None]

    return {
        "equilibrium": (
            lambda: freegs.Equilibrium(nx=17, ny=17),
            {**{k: (lambda f: lambda e: f(e.tokamak))(f) for k, f in machine_changes.items()}, "psi": bump_psi},
            eq_seen,
        ),
        "empty machine": (EmptyTokamak, machine_changes, machine_seen),
        "machine": (lambda: Machine([("A", Coil(1.1, 0.9))]), machine_changes, machine_seen),
        "mirrored coil": (lambda: MultiCoil(1.1, 0.9, mirror=True), {**coil_changes, **wiring}, coil_seen),
        "block": (lambda: MultiCoil([1.1, 1.2], [0.9, 0.95]), {**{k: v for k, v in coil_changes.items() if k != "turns"}, **wiring}, coil_seen),
        "coil": (lambda: Coil(1.1, 0.9), coil_changes, coil_seen),
        "shaped coil": (lambda: ShapedCoil([(1.0, 0.8), (1.2, 0.8), (1.2, 1.0)]), coil_changes, coil_seen),
        "solenoid": (
            lambda: Solenoid(0.2, -0.5, 0.5, 10),
            {"current": lambda c: setattr(c, "current", 3e4), "control": lambda c: setattr(c, "control", False)},
            lambda c: [c.psi(OR, OZ), c.controlPsi(OR, OZ), c.current, bool(c.control)],
        ),
        "circuit": (
            lambda: Circuit([("A", Coil(1.1, 0.9), 1.0), ("B", Coil(1.1, -0.9), -1.0)]),
            {"current": lambda c: setattr(c, "current", 3e4), "control": lambda c: setattr(c, "control", False), "move": lambda c: setattr(c["A"], "R", 1.6)},
            lambda c: [c.psi(OR, OZ), c.controlPsi(OR, OZ), c.current, bool(c.control)],
        ),
        "constraints": (
            lambda: freegs.control.constrain(),
            {
                "xpoint": lambda c: c.xpoints.append((1.0, -0.5)),
                "isoflux": lambda c: c.isoflux.append((1.0, -0.5, 1.0, 0.5)),
                "psival": lambda c: c.psivals.append((1.0, -0.5, 0.1)),
                "limit": lambda c: setattr(c, "max_total_current", 1e5),
            },
            con_seen,
        ),
    }


def run_defaults(case, ck):
    """An object made with default arguments is the same whatever was done to others like it"""
    make, changes, seen = _defaults()[case["kind"]]
    # objects made in this process before may have been changed: the first one is the
    # reference only because every case ends by looking at a new one
    first = make()
    want = pickled(seen(first))
    beside = make()
    for c in case["changes"]:
        changes[c](first)
        ck.step()
    what = "%s made %%s another one and %s" % (case["kind"], case["changes"])
    if pickled(seen(first)) != want:
        ck.outcome(case["kind"], "changed")
    ck.expect(pickled(seen(beside)) == want, what % "before changing")
    ck.expect(pickled(seen(make())) == want, what % "after changing")
    ck.state(case["kind"], case["changes"])
    ck.trace()


def pickled(x):
    if isinstance(x, dict):
        return {k: pickled(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [pickled(v) for v in x]
    return np.asarray(x).tolist()


def orders(n, k):
    for c in itertools.combinations(range(2 * n), n):
        yield [0 if i in c else 1 for i in range(2 * n)]


def check(tier):
    q = tier == "quick"
    inter = []
    names = list(SPEC)
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i + 1 :]] + [(a, a) for a in names]
    for a, b in pairs:
        for o in orders(Session.N, 2):
            # each step of the second after each of the first; the rest when thorough
            if a == b and o[0] == 1:
                continue
            if q and sum(o[i] != o[i + 1] for i in range(5)) != 5 and o != [0, 1, 1, 1, 0, 0]:
                continue
            inter.append(dict(names=[a, b], order=o))
    if not q:
        for t in itertools.permutations(names, 3):
            inter.append(dict(names=list(t), order=[0, 1, 2] * 3))
            inter.append(dict(names=list(t), order=[0, 1, 2, 2, 1, 0, 1, 0, 2]))
    copies = []
    for kind in ("scripted", "multigrid"):
        for how in ("copy", "copy of copy", "twins", "together"):
            for a in OPS:
                for w in (0, 1):
                    copies.append(dict(kind=kind, how=how, prog=[(w, a)]))
                if how != "copy" and q:
                    continue
                for b in OPS:
                    for w in (0, 1):
                        if q and kind == "multigrid" and not {a, b} & {"resolve", "solver"}:
                            continue
                        copies.append(dict(kind=kind, how=how, prog=[(w, a), (1 - w, b)]))
                        if not q:
                            copies.append(dict(kind=kind, how=how, prog=[(w, a), (w, b), (1 - w, a)]))
                            copies.append(dict(kind=kind, how=how, prog=[(w, a), (1 - w, b), (w, b)]))
    for how in ("copy", "together"):
        for a in OPS + ["picard", "look"]:
            for w in (0, 1):
                copies.append(dict(kind="solved", how=how, prog=[(w, a), (1 - w, "picard")]))
                copies.append(dict(kind="solved", how=how, prog=[(w, "picard"), (1 - w, a)]))
                if not q:
                    copies.append(dict(kind="solved", how=how, prog=[(w, a), (1 - w, "picard"), (w, "picard")]))
    quietops = [o for o in OPS if o != "inplace"]
    held = []
    for kind in ("scripted", "multigrid"):
        for a in quietops:
            held.append(dict(kind=kind, how="results", ops=[a]))
            for b in quietops:
                if not q or (kind == "scripted" and b in ("resolve", "vector", "circuit")):
                    held.append(dict(kind=kind, how="results", ops=[a, b]))
                if not q or b in ("resolve", a):
                    for how in ("array", "flux"):
                        held.append(dict(kind=kind, how=how, ops=[a, b]))
    reference()
    defaults = [
        {"kind": k, "changes": list(c)}
        for k, (_, changes, _) in _defaults().items()
        for n in range(min(len(changes), 3 if q else 6) + 1)
        for c in itertools.permutations(changes, n)
    ]
    return CheckDef(
        "C29",
        [
            Section("interleavings", inter, run_inter, "interleavings of the steps of two (all of them, and of three, in the thorough tier) of %d sessions, against each alone in its own process" % len(names), timeout=240),
            Section("copies", copies, run_copy, "operation sequences on an original and its deep copy, %d operations" % (len(OPS) + 2), timeout=240),
            Section("defaults", defaults, run_defaults, "objects made with default arguments beside and after others, changed by all sequences of distinct changes (up to three in the quick tier)"),
            Section("held", held, run_held, "results taken earlier, and the flux an equilibrium was started from, after all sequences of two operations", timeout=240),
        ],
        ["objects which the user shares between equilibria on purpose (a machine, a profile) are shared", "the sequence of random numbers of the optimiser is not a result of an equilibrium"],
    )
