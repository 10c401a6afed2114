"""C16: saving and re-reading.

All machines of up to three components of every supported kind, all operation
histories up to a depth on a mixed machine (with saving and re-reading as one
of the operations), and all grid / boundary / setting combinations; every
state is written to a file in a scratch directory, read back and compared with
the original by what both do: geometry, currents, flux and field at points
and on the grid, and one further linear solve.
"""

import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.core import CheckDef, Section, Violation
from mc import coils as mcoils
from mc import eqs

SAVED = ["point", "rect", "tri1", "L3", "fil", "filshape", "filone", "filauto", "solenoid", "mirS", "mirA", "circ0", "circ1", "circ3"]
REFUSED = ["multi", "multilist", "mirror+", "mirror-", "precalc", "circshape", "circfil", "shape11", "fil501", "turns", "circturns"]
LABELS = ["zz", "A 1", "m_2"]


def make(kind, k):
    """A component; k varies place, current and flags"""
    from freegs.machine import Circuit, MirroredCoil
    from freegs.coil import Coil
    from freegs.shaped_coil import ShapedCoil
    from freegs.filament_coil import FilamentCoil

    dR, dZ = 0.17 * k, 0.9 - 0.55 * k
    I = (1.3e4, -7.77e3, 2.1e4)[k]
    ctl = k != 1
    if kind == "mirS":
        return MirroredCoil(1.2 + dR, 0.6, current=I, turns=2 + k, control=ctl)
    if kind == "mirA":
        return MirroredCoil(1.2 + dR, 0.6, current=I, symmetric=False, control=ctl)
    if kind == "circ0":
        return Circuit([("P", Coil(1.5, dZ), 0.0), ("Q", Coil(1.6, -dZ, turns=3), -2.0)], current=I, control=ctl)
    if kind == "circ1":
        return Circuit([("only", Coil(1.1 + dR, dZ, turns=7), 0.3)], current=I, control=ctl)
    if kind == "circ3":
        return Circuit([("z", Coil(1.1 + dR, dZ, turns=2), 0.3), ("a", Coil(1.9, -0.4), -1.7), ("k", Coil(0.4, 0.1 * k, turns=12), 1.0)], current=I, control=ctl)
    if kind == "circshape":
        return Circuit([("P", Coil(1.5, dZ), 1.0), ("Q", ShapedCoil(mcoils.RECT), 1.0)], current=I)
    if kind == "circfil":
        return Circuit([("P", FilamentCoil([1.0, 1.1], [0.0, 0.1]), 1.0)], current=I)
    if kind == "shape11":
        t = np.arange(11) * 2 * np.pi / 11
        return ShapedCoil([(1 + 0.1 * np.cos(a), 0.1 * np.sin(a)) for a in t], current=I)
    if kind == "fil501":
        return FilamentCoil(np.linspace(0.9, 1.1, 501), np.linspace(-0.1, 0.1, 501), current=I)
    if kind == "turns":
        return Coil(1.0, 0.2, turns=2.5, current=I)
    if kind == "circturns":
        return Circuit([("P", Coil(1.5, dZ, turns=0.5), 1.0)], current=I)
    m = mcoils.model(kind, current=I, control=ctl, dR=dR, dZ=dZ)
    if kind != "solenoid":
        m["turns"] = m["turns"] + k
    return mcoils.build(m)


def members(coil):
    cs = getattr(coil, "coils", None)
    if cs is None:
        return [("", coil, 1.0)]
    return list(cs)


def near(a, b):
    return abs(a - b) <= 1e-12 * (abs(a) + abs(b)) + 1e-300


def compare_coil(a, b, what, ck):
    ck.same(type(b).__name__, type(a).__name__, what + ": kind")
    ck.expect(near(float(a.current), float(b.current)), "%s: current %r, was %r" % (what, b.current, a.current))
    ck.same(bool(b.control), bool(a.control), what + ": control")
    ma, mb = members(a), members(b)
    ck.same([x[0] for x in mb], [x[0] for x in ma], what + ": circuit labels")
    ck.same([float(x[2]) for x in mb], [float(x[2]) for x in ma], what + ": circuit multipliers")
    for (l, x, _), (_, y, _) in zip(ma, mb):
        ck.expect(near(float(x.current), float(y.current)), "%s %s: current %r, was %r" % (what, l, y.current, x.current))
        ck.same(bool(y.control), bool(x.control), "%s %s: control" % (what, l))
        for at in ("R", "Z", "Rs", "Zsmin", "Zsmax", "Ns", "turns"):
            if hasattr(x, at):
                ck.close(getattr(y, at), getattr(x, at), "%s %s: %s" % (what, l, at), rtol=1e-12, atol=1e-14)
        if hasattr(x, "shape"):
            ck.close(np.array(y.shape, dtype=float).reshape(-1, 2), np.array(x.shape, dtype=float).reshape(-1, 2), "%s %s: outline" % (what, l), rtol=1e-12, atol=1e-14)


PR = np.array([0.3, 0.77, 1.9, 2.6])
PZ = np.array([-0.2, 0.45, 0.05, -1.3])


def compare(a, b, ck):
    for at in ("Rmin", "Rmax", "Zmin", "Zmax", "R_1D", "Z_1D", "R", "Z", "dR", "dZ", "nx", "ny"):
        if hasattr(a, at):
            ck.close(getattr(b, at), getattr(a, at), at, rtol=1e-14)
            ck.same(np.shape(getattr(b, at)), np.shape(getattr(a, at)), "shape of " + at)
    ck.close(b.plasma_psi, a.plasma_psi, "plasma flux", rtol=0)
    ck.close(b.plasmaCurrent(), a.plasmaCurrent(), "plasma current", rtol=1e-14)
    ck.same(int(b.order), int(a.order), "order")
    ck.same(bool(b.check_limited), bool(a.check_limited), "limiter setting")
    ta, tb = a.tokamak, b.tokamak
    ck.same([str(l) for l, _ in tb.coils], [str(l) for l, _ in ta.coils], "coils and their order")
    for (l, x), (_, y) in zip(ta.coils, tb.coils):
        compare_coil(x, y, l, ck)
    ck.same(tb.wall is None, ta.wall is None, "has a wall")
    if ta.wall is not None:
        ck.close(tb.wall.R, ta.wall.R, "wall R", rtol=0)
        ck.close(tb.wall.Z, ta.wall.Z, "wall Z", rtol=0)
    if ta.R0 is None:
        ck.same(tb.R0, None, "reference radius")
    else:
        ck.close(tb.R0, ta.R0, "reference radius", rtol=0)
    for name in ("psi", "Br", "Bz"):
        w = np.asarray(getattr(ta, name)(PR, PZ), dtype=float) + np.zeros(4)
        g = np.asarray(getattr(tb, name)(PR, PZ), dtype=float) + np.zeros(4)
        ck.close(g, w, "coil " + name, rtol=1e-9, atol=1e-12 * np.abs(w).max())
    ck.close(b.psi(), a.psi(), "total flux on the grid", rtol=1e-10, atol=1e-12 * np.abs(a.psi()).max())
    r = np.linspace(a.Rmin, a.Rmax, 5)[1:-1]
    z = np.linspace(a.Zmin, a.Zmax, 5)[1:-1] * 0.97
    for name in ("psiRZ", "Br", "Bz"):
        w = np.asarray(getattr(a, name)(r, z))
        ck.close(getattr(b, name)(r, z), w, "total " + name, rtol=1e-8, atol=1e-10 * np.abs(w).max())


def solved_flux(eq):
    """One further linear solve with a given current"""
    J = eqs.bump(eq.R, eq.Z, 0.5 * (eq.Rmin + eq.Rmax), 0.5 * (eq.Zmin + eq.Zmax) + 0.03, 0.3 * (eq.Rmax - eq.Rmin), 2e5, e=1.0)
    eq.solve(eqs.StubProfile(), Jtor=J)
    return np.array(eq.plasma_psi), eq.plasmaCurrent()


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c16_")
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def path(self):
        self.n += 1
        return os.path.join(self.d, "f%d.h5" % self.n)


def save(eq, path):
    import freegs

    with freegs.OutputFile(path, "w") as f:
        f.write_equilibrium(eq)


def load(path):
    import freegs

    with freegs.OutputFile(path, "r") as f:
        return f.read_equilibrium()


def new_eq(coils, wall=True, R0=None, dom=(0.1, 2.0, -1.0, 1.1), n=(9, 17), boundary="free", order=2, limited=False, psi="shape"):
    import freegs
    from freegs import boundary as fb

    w = freegs.machine.Wall([0.2, 0.2, 1.8, 1.7], [-0.8, 0.9, 0.8, -0.7]) if wall else None
    tok = freegs.machine.Machine(coils, w)
    if R0 is not None:
        tok.R0 = R0
    eq = freegs.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=n[0], ny=n[1], boundary={"free": fb.freeBoundary, "hagenow": fb.freeBoundaryHagenow, "fixed": fb.fixedBoundary}[boundary], order=order, check_limited=limited)
    x = (eq.R - dom[0]) / (dom[1] - dom[0])
    y = (eq.Z - dom[2]) / (dom[3] - dom[2])
    if psi == "solve":
        solved_flux(eq)
    else:
        eq._updatePlasmaPsi(0.1 * np.exp(-((x - 0.4) ** 2) - (y - 0.6) ** 2) + 0.01 * x * y)
    return eq


def roundtrip(eq, s, ck, solve=True):
    before = repr([(l, repr(c)) for l, c in eq.tokamak.coils])
    p = s.path()
    save(eq, p)
    ck.same(repr([(l, repr(c)) for l, c in eq.tokamak.coils]), before, "machine after saving")
    b = load(p)
    compare(eq, b, ck)
    ck.step(2)
    # a second generation, and an independent second reading
    p2 = s.path()
    save(b, p2)
    c = load(p2)
    compare(eq, c, ck)
    ck.step(2)
    d = load(p)
    if solve:
        want = solved_flux(b)
        got = solved_flux(c)
        ck.close(got[0], want[0], "flux after a solve (second generation)", rtol=1e-10, atol=1e-12)
        compare(eq, d, ck)
        want = solved_flux(eq)
        got = solved_flux(d)
        ck.close(got[0], want[0], "flux after a solve", rtol=1e-9, atol=1e-11 * np.abs(want[0]).max())
        ck.close(got[1], want[1], "current after a solve", rtol=1e-9)
        ck.step(4)
    return b


def run_machines(case, ck):
    with Scratch() as s:
        coils = [(LABELS[k], make(kind, k)) for k, kind in enumerate(case["kinds"])]
        eq = new_eq(coils, wall=case["wall"], psi="solve")
        roundtrip(eq, s, ck, solve=False)
    ck.state(case)
    ck.trace()
    ck.outcome("machine", len(case["kinds"]))


def run_refused(case, ck):
    """A component which can't be saved: an error, whatever else there is"""
    with Scratch() as s:
        coils = [(LABELS[k], make(kind, k)) for k, kind in enumerate(case["kinds"])]
        eq = new_eq(coils, wall=True)
        try:
            p = s.path()
            save(eq, p)
        except Exception as e:
            ck.outcome("refused", type(e).__name__)
        else:
            # saved after all: then it must come back the same
            compare(eq, load(p), ck)
            ck.outcome("saved", *case["kinds"])
    ck.state(case)
    ck.step()
    ck.trace()


def run_settings(case, ck):
    with Scratch() as s:
        coils = [("P", make("point", 1)), ("C", make("circ3", 0))]
        eq = new_eq(coils, wall=case["wall"], R0=case["R0"], dom=case["dom"], n=case["n"], boundary=case["boundary"], order=case["order"], limited=case["limited"], psi=case["psi"])
        if case["current"] is not None:
            eq._current = case["current"]
        roundtrip(eq, s, ck)
    ck.state(case)
    ck.trace()
    ck.outcome(case["boundary"], case["order"], case["limited"])


BASEWALLS = {
    "triangle": [(0.3, -0.6), (1.7, -0.4), (0.9, 0.8)],
    "box": [(0.2, -0.8), (0.2, 0.9), (1.8, 0.9), (1.8, -0.8)],
    "L": [(0.4, -0.8), (1.6, -0.8), (1.6, 0.2), (1.3, 0.2), (1.3, 0.8), (0.4, 0.8)],
    "far": [(2.5, 3.0), (2.5, 4.0), (3.5, 4.0)],
}
AS = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, float), "f32": lambda x: np.array(x, np.float32)}


def run_walls(case, ck):
    """Walls come back point by point, in order, closed or not"""
    import freegs

    p = BASEWALLS[case["wall"]]
    n = len(p)
    p = [p[(case["first"] + i * case["dir"]) % n] for i in range(n)]
    if case["extra"] == "closed":
        p = p + p[:1]
    elif case["extra"] == "twice":
        p = p[:1] + p
    elif case["extra"] == "mid":
        p = p[:1] + [(0.5 * (p[0][0] + p[1][0]), 0.5 * (p[0][1] + p[1][1]))] + p[1:]
    elif case["extra"] == "int":
        p = [(round(2 * r), round(2 * z)) for r, z in p]
    f = AS[case["form"]]
    with Scratch() as s:
        eq = new_eq([("P", make("point", 0))], wall=False)
        eq.tokamak.wall = freegs.machine.Wall(f([x[0] for x in p]), f([x[1] for x in p]))
        roundtrip(eq, s, ck, solve=False)
    ck.state(case)
    ck.trace()
    ck.outcome("wall", len(p), case["extra"])


OPS = ["mvp", "mvs", "mvf", "mvc", "Ip", "Ic", "Is", "turns", "ctlp", "ctlc", "ctls", "R0", "wall", "nowall", "solve", "member", "reload", "refine"]


def apply_op(op, st, s):
    import freegs
    from freegs.machine import Wall

    eq = st["eq"]
    t = eq.tokamak
    st["n"] += 1
    n = st["n"]
    if op == "mvp":
        t["P"].R += 0.05
        t["P"].Z -= 0.03
    elif op == "mvs":
        t["S"].R -= 0.04
        t["S"].Z += 0.06
    elif op == "mvf":
        t["F"].R += 0.02
        t["F"].Z += 0.05
    elif op == "mvc":
        t["C"]["a"].R += 0.05
        t["C"]["a"].Z -= 0.02
    elif op == "Ip":
        t["P"].current = -150.0 * n
    elif op == "Ic":
        t["C"].current = 3e3 + 7.0 * n
    elif op == "Is":
        t["S"].current = 40.0 * n
        t["L"].current = -31.0 * n
        t["F"].current = 77.0 * n
    elif op == "turns":
        t["P"].turns = 2 + n
        t["S"].turns = 3 + n
        t["F"].turns = 4 + n
    elif op == "ctlp":
        t["P"].control = not t["P"].control
        t["F"].control = not t["F"].control
    elif op == "ctlc":
        t["C"].control = not t["C"].control
    elif op == "ctls":
        t["S"].control = not t["S"].control
        t["L"].control = not t["L"].control
    elif op == "R0":
        t.R0 = 0.9 + 0.1 * n
    elif op == "wall":
        t.wall = Wall([0.3, 0.3, 1.5], [-0.6 - 0.01 * n, 0.7, 0.1])
    elif op == "nowall":
        t.wall = None
    elif op == "solve":
        solved_flux(eq)
    elif op == "member":
        # an inconsistent current in a coil of the circuit; the circuit's counts
        t["C"].coils[0][1].current = 999.0
        t.psi(1.0, 0.3)
    elif op == "refine":
        if eq.nx > 9:
            st["eq"] = freegs.equilibrium.coarsen(eq)
        else:
            st["eq"] = freegs.equilibrium.refine(eq)
    elif op == "reload":
        p = s.path()
        save(eq, p)
        st["eq"] = load(p)


def start():
    coils = [("S", make("L3", 0)), ("P", make("point", 1)), ("C", make("circ3", 2)), ("L", make("solenoid", 0)), ("F", make("filshape", 2))]
    return dict(eq=new_eq(coils, n=(9, 9)), n=0)


def fresh_psi(eq):
    """Total flux with coils where they are now (the grid's stored responses
    are those of the coils at construction)"""
    import freegs

    e = freegs.Equilibrium(eq.tokamak, Rmin=eq.Rmin, Rmax=eq.Rmax, Zmin=eq.Zmin, Zmax=eq.Zmax, nx=eq.nx, ny=eq.ny, psi=np.array(eq.plasma_psi), current=eq.plasmaCurrent(), order=eq.order, check_limited=eq.check_limited)
    return e


def run_history(case, ck):
    with Scratch() as s:
        st = start()
        for op in case["ops"]:
            apply_op(op, st, s)
            ck.step()
        a = fresh_psi(st["eq"])
        p = s.path()
        save(st["eq"], p)
        b = load(p)
        compare(a, b, ck)
        ck.step(2)
    ck.state(case["ops"])
    ck.trace()
    ck.outcome("history", len(case["ops"]))


def run_overwrite(case, ck):
    """Files written again, several equilibria in scratch, reading in any order"""
    with Scratch() as s:
        E = {}
        for k, kinds in enumerate((["point"], ["circ3", "rect"], ["solenoid", "fil", "mirA"])):
            E[k] = new_eq([(LABELS[i], make(kd, i)) for i, kd in enumerate(kinds)], wall=k != 1, n=((9, 9), (9, 17), (17, 9))[k], order=2 if k else 4)
        files = {}
        paths = [s.path(), s.path()]
        for f, k in case["writes"]:
            save(E[k], paths[f])
            files[f] = k
            ck.step()
            for g in sorted(files):
                compare(E[files[g]], load(paths[g]), ck)
                ck.step()
    ck.state(case)
    ck.trace()


def check(tier):
    q = tier == "quick"
    mach = []
    for n in (1, 2) if q else (1, 2, 3):
        for kinds in itertools.product(SAVED, repeat=n):
            for wall in (True, False):
                if wall is False and n == 2 and q:
                    continue
                if n == 3 and wall is False:
                    continue
                mach.append(dict(kinds=list(kinds), wall=wall))
    if q:
        three = ["point", "rect", "filshape", "circ3", "solenoid"]
        mach += [dict(kinds=list(k), wall=True) for k in itertools.permutations(three, 3)]
    mach.insert(0, dict(kinds=[], wall=True))
    ref = [dict(kinds=[k]) for k in REFUSED]
    ref += [dict(kinds=list(p)) for k in REFUSED for o in ("point", "circ1", "rect") for p in ((k, o), (o, k))]
    sett = []
    doms = [(0.1, 2.0, -1.0, 1.0), (0.5, 1.5, -0.2, 1.4), (1.0, 3.0, -2.0, -0.5)]
    ns = [(9, 9), (9, 17), (17, 9), (5, 9), (33, 17)]
    for boundary, order, limited, wall in itertools.product(("free", "hagenow", "fixed"), (2, 4), (False, True), (False, True)):
        for i, dom in enumerate(doms):
            for j, n in enumerate(ns):
                if order == 4 and min(n) < 9:
                    continue
                if q and (i + j) % 3 != (0 if wall else 1):
                    continue
                for psi, current in (("shape", None), ("shape", -1.234e5), ("solve", None)):
                    if q and psi == "shape" and current is None and n != (9, 9):
                        continue
                    sett.append(dict(boundary=boundary, order=order, limited=limited, wall=wall, dom=list(dom), n=list(n), R0=(None, 0.85, 1.7)[(i + j) % 3], psi=psi, current=current))
    walls = [dict(wall=w, first=k, dir=d, extra=x, form=f) for w, p in BASEWALLS.items() for k in range(len(p)) for d in (1, -1)
             for x in ("no", "closed", "twice", "mid", "int") for f in AS if not q or f == ("list", "array", "tuple", "f32")[(k + d) % 4]]
    hist = [dict(ops=list(o)) for d in range(0, 3 if q else 4) for o in itertools.product(OPS, repeat=d)]
    if q:
        short = ["mvs", "mvc", "Ic", "ctlc", "turns", "reload"]
        hist += [dict(ops=list(o)) for o in itertools.product(short, repeat=3)]
    over = [dict(writes=[list(w) for w in ws]) for d in (1, 2, 3) for ws in itertools.product(itertools.product((0, 1), (0, 1, 2)), repeat=d) if not (q and d == 3 and ws[0] != (0, 0))]
    return CheckDef(
        "C16",
        [
            Section("machines", mach, run_machines, "all machines of up to %s components of 14 kinds" % ("two (three of five kinds)" if q else "three")),
            Section("refused", ref, run_refused, "components without a file format, alone and before or after another"),
            Section("settings", sett, run_settings, "grids, domains, boundary conditions, orders, limiter settings, walls"),
            Section("walls", walls, run_walls, "walls of 3 to 7 points: every first point, both senses, closed or not, repeated points, kinds of number"),
            Section("histories", hist, run_history, "all operation sequences up to length %d of 18 operations" % (2 if q else 3)),
            Section("files", over, run_overwrite, "all sequences of up to three writes of three equilibria to two files"),
        ],
        ["labels without '/'", "sensors, coil areas and the number of limit points are not part of the file"],
    )
