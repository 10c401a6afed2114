"""C28: the predefined machines.

Every predefined machine is created in every order with every operation on the
others; fresh machines must always be the same and carry no current.  All coils,
circuits, sensors and walls of the up/down symmetric machines are compared with
their mirror image on a lattice of points.
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section, quiet

NAMES = ["EmptyTokamak", "TestTokamak", "TestTokamakLimited", "TestTokamakSensor", "DIIID", "MAST", "MAST_sym", "TCV", "MASTU_simple", "MASTU"]
SYM = [n for n in NAMES if n not in ("DIIID", "EmptyTokamak")]
# coils mirrored by name where the rule U <-> L does not say so
TCV = {"E%d" % i: "E%d" % (9 - i) for i in range(1, 9)}
TCV.update({"F%d" % i: "F%d" % (9 - i) for i in range(1, 9)})
PR, PZ = [a.ravel() for a in np.meshgrid(np.linspace(0.31, 2.13, 7), np.linspace(0.07, 2.31, 6))]


def make(name):
    import freegs

    return getattr(freegs.machine, name)()


def leaves(coils, weight=1.0, path=""):
    for t in coils:
        n, c = t[0], t[1]
        w = weight * (t[2] if len(t) > 2 else 1.0)
        if hasattr(c, "coils"):
            yield from leaves(c.coils, w, path + n + "/")
        else:
            yield path + n, c, w


def describe(m):
    """Everything observable about a machine"""
    d = {"names": [n for n, _ in m.coils]}
    d["currents"] = [float(x) for x in m.getCurrents().values()]
    d["control"] = [bool(c.control) for _, c in m.coils]
    d["leaves"] = [(n, type(c).__name__, float(c.current), getattr(c, "turns", None), w) for n, c, w in leaves(m.coils)]
    d["psi"] = [np.asarray(c.controlPsi(PR, PZ)) for _, c in m.coils]
    d["Br"] = [np.asarray(c.controlBr(PR, PZ)) for _, c in m.coils]
    d["Bz"] = [np.asarray(c.controlBz(PR, PZ)) for _, c in m.coils]
    d["wall"] = None if m.wall is None else (list(map(float, m.wall.R)), list(map(float, m.wall.Z)))
    d["sensors"] = [(s.name, type(s).__name__, bool(s.status), float(np.ravel(s.weight)[0]), list(np.ravel(s.R)), list(np.ravel(s.Z)), getattr(s, "theta", None)) for s in m.sensors or []]
    d["R0"] = m.R0
    return d


def same(a, b, ck, what):
    for k in a:
        if k in ("psi", "Br", "Bz"):
            ck.same(len(a[k]), len(b[k]), what + ": " + k)
            for n, x, y in zip(a["names"], a[k], b[k]):
                ck.close(y, x, what + ": %s response of %s" % (k, n), rtol=1e-12, atol=1e-20)
        else:
            ck.same(b[k], a[k], what + ": " + k)


def vandalise(m, op):
    """Operations a user does on a machine"""
    import freegs

    if op == "currents":
        for i, (n, c) in enumerate(m.coils):
            c.current = 1e3 * (i + 1)
    elif op == "vector":
        m.setControlCurrents([1e3 + i for i in range(len(m.controlCurrents()))])
        m.controlAdjust(np.full(len(m.controlCurrents()), 5.0))
    elif op == "control":
        for _, c in m.coils:
            c.control = False
    elif op == "wall":
        m.wall = freegs.machine.Wall([0.1, 0.1, 0.2], [0.0, 0.1, 0.0])
        m.R0 = 7.0
    elif op == "wall points":
        if m.wall is not None:
            for k in range(len(m.wall.R)):
                m.wall.R[k] += 0.5
                m.wall.Z[k] -= 0.25
    elif op == "coils":
        m.coils.append(("extra", freegs.machine.Coil(1.0, 0.0)))
        del m.coils[0]
    elif op == "move":
        for n, c, _ in leaves(m.coils):
            try:
                c.Z = c.Z + 0.3
                c.R = c.R + 0.05
            except AttributeError:
                # a solenoid has no position to set
                pass
    elif op == "sensors":
        for s in m.sensors or []:
            s.status = False
            s.weight = 9.0
        if m.sensors:
            m.sensors.pop()
    elif op == "equilibrium":
        with quiet():
            eq = freegs.Equilibrium(m, Rmin=0.3, Rmax=1.4, Zmin=-0.7, Zmax=0.7, nx=17, ny=17)
            for _, c in m.coils:
                c.current = 2e3
            eq.psi()
            m.printCurrents()
            m.getForces(eq)
    elif op == "numpy":
        m.getCurrents()
        if len(m.coils):
            m.to_numpy_array()


OPS = ["currents", "vector", "control", "wall", "wall points", "coils", "move", "sensors", "equilibrium"]
_fresh = {}


def run_fresh(case, ck):
    name, others, ops = case["name"], case["others"], case["ops"]
    first = make(name)
    a = describe(first)
    ck.expect(all(c == 0.0 for c in a["currents"]), name + ": starts without current")
    ck.expect(all(x[2] == 0.0 for x in a["leaves"]), name + ": coils start without current")
    ck.expect(all(c for n, c in zip(a["names"], a["control"]) if (name, n) != ("MASTU", "Solenoid")), name + ": all coils start controlled")
    n = [x for x in a["names"]]
    ck.same(len(set(n)), len(n), name + ": names are unique")
    l = [x[0].split("/")[-1] for x in a["leaves"]]
    ck.same(len(set(l)), len(l), name + ": coil names are unique")
    for k in ("psi", "Br", "Bz"):
        for nm, v in zip(n, a[k]):
            ck.expect(np.all(np.isfinite(v)), name + ": response of %s is finite" % nm)
    for nm, v in zip(n, a["psi"]):
        ck.expect(np.abs(v).max() > 0, name + ": %s has a response" % nm)
    # a second machine lives beside one which is changed
    twin = make(name)
    for o in others:
        m = first if o == name else make(o)
        for op in ops:
            if op in ("coils",) and not m.coils:
                continue
            vandalise(m, op)
            ck.step()
    same(a, describe(twin), ck, "%s beside %s changed by %s" % (name, others, ops))
    same(a, describe(make(name)), ck, "%s created after %s changed by %s" % (name, others, ops))
    ck.state(case)
    ck.trace()
    ck.outcome(name, len(ops))


def partner(name, path):
    if name == "TCV":
        leaf = path.split("/")[-1]
        p = {"C1": "C2", "C2": "C1", "D1": "D2", "D2": "D1", "OH1": "OH1", "OH": "OH"}.get(leaf, TCV.get(leaf))
        return None if p is None else path[: len(path) - len(leaf)] + p
    if name == "MASTU" and path == "Pc":
        # measured positions, not quite symmetric
        return None
    if path.endswith("U"):
        return path[:-1] + "L"
    if path.endswith("L"):
        return path[:-1] + "U"
    return path


def run_sym(case, ck):
    name = case["name"]
    m = make(name)
    L = {n: (c, w) for n, c, w in leaves(m.coils)}
    for n, (c, w) in L.items():
        p = partner(name, n)
        if p is None:
            continue
        ck.expect(p in L, "%s: %s has the partner %s" % (name, n, p))
        d, v = L[p]
        ck.same(getattr(c, "turns", None), getattr(d, "turns", None), "%s: turns of %s and %s" % (name, n, p))
        ck.close(abs(v), abs(w), "%s: connection of %s and %s" % (name, n, p))
        # shaped coils: the quadrature points are not mirrored
        tol = 1e-9 if type(c).__name__ != "ShapedCoil" else 1e-2
        for f, s in (("psi", 1), ("Br", -1), ("Bz", 1)):
            g = "control" + f[0].upper() + f[1:]
            a, b = getattr(c, g)(PR, PZ), getattr(d, g)(PR, -PZ)
            ck.close(b * s, a, "%s: %s of %s and its mirror image %s" % (name, f, n, p), rtol=0, atol=tol * np.abs(a).max())
        if hasattr(c, "R") and hasattr(c, "Z"):
            ck.close([np.mean(d.R), np.mean(d.Z)], [np.mean(c.R), -np.mean(c.Z)], "%s: position of %s and %s" % (name, n, p), rtol=0, atol=1e-9)
        ck.step()
    # circuits and control: symmetric or antisymmetric as a whole
    for n, c in m.coils:
        if not hasattr(c, "coils"):
            continue
        w = [v for _, _, v in leaves([(n, c)])]
        anti = min(w) < 0
        a, b = c.controlPsi(PR, PZ), c.controlPsi(PR, -PZ)
        ck.close(-b if anti else b, a, "%s: flux of the circuit %s above and below" % (name, n), rtol=0, atol=1e-9 * np.abs(a).max())
        if anti:
            ck.expect(n.startswith("P6"), "%s: %s is connected in the same direction" % (name, n))
        elif n.startswith("P6"):
            ck.expect(False, "%s: vertical control %s is connected in opposite directions" % (name, n))
        ck.step()
    if m.wall is not None:
        pts = sorted((round(float(r), 9), round(float(z), 9)) for r, z in zip(m.wall.R, m.wall.Z))
        mir = sorted((r, -z if z else 0.0) for r, z in pts)
        ck.close(np.array(mir), np.array(pts), name + ": wall and its mirror image", atol=1e-9)
        ck.expect(min(r for r, _ in pts) > 0, name + ": wall at positive radius")
    if m.sensors:
        by = {}
        for s in m.sensors:
            by.setdefault(type(s).__name__, []).append(s)
        for kind, group in by.items():
            if kind == "RogowskiSensor":
                for s in group:
                    p = sorted(zip(np.ravel(s.R), np.ravel(s.Z)))
                    ck.close(np.array(sorted((r, -z) for r, z in p)), np.array(p), name + ": outline of " + s.name, atol=1e-9)
                continue
            p = sorted((float(s.R), float(s.Z)) for s in group)
            ck.close(np.array(sorted((r, -z) for r, z in p)), np.array(p), name + ": %s positions" % kind, atol=1e-9)
            if kind == "PoloidalFieldSensor":
                p = sorted((float(s.R), float(s.Z), float(s.theta)) for s in group)
                ck.close(np.array(sorted((r, -z, -t) for r, z, t in p)), np.array(p), name + ": %s directions" % kind, atol=1e-9)
        ck.same(len({s.name for s in m.sensors}), len(m.sensors), name + ": sensor names")
    ck.state(case)
    ck.trace()
    ck.outcome("symmetric", name)


def run_total(case, ck):
    """Currents in the coils, by name: the machine is the sum of its coils, up/down exchanged currents give the mirrored field"""
    name = case["name"]
    m, k = make(name), make(name)
    names = [n for n, _ in m.coils]
    top = {p: partner(name, p) for p in names}
    for i, n in enumerate(names):
        if top[n] is None or top[n] not in names:
            continue
        c, d = m[n], k[top[n]]
        c.current, d.current = 1e3, 1e3
        a, b = m.psi(PR, PZ), k.psi(PR, -PZ)
        anti = hasattr(c, "coils") and n.startswith("P6")
        ck.close(-b if anti else b, a, "%s: flux with current in %s" % (name, n), rtol=0, atol=(1e-2 if type(c).__name__ == "ShapedCoil" else 1e-9) * np.abs(a).max())
        ck.close(a, 1e3 * c.controlPsi(PR, PZ), "%s: flux with only %s" % (name, n), rtol=1e-9)
        ck.same(m.getCurrents()[n], 1e3, "%s: current of %s" % (name, n))
        c.current, d.current = 0.0, 0.0
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("total", name)


def check(tier):
    q = tier == "quick"
    fresh = []
    for name in NAMES:
        for op in OPS:
            fresh.append(dict(name=name, others=[name], ops=[op]))
        for a, b in itertools.permutations(OPS, 2):
            if not q or name in ("TestTokamak", "TestTokamakSensor", "MAST_sym"):
                fresh.append(dict(name=name, others=[name], ops=[a, b]))
        for o in NAMES:
            if o != name:
                for op in OPS if not q else ["wall points", "move", "sensors", "control"]:
                    fresh.append(dict(name=name, others=[o], ops=[op]))
    return CheckDef(
        "C28",
        [
            Section("independence", fresh, run_fresh, "every machine beside and after every machine changed by every operation, and pairs of operations"),
            Section("mirror images", [dict(name=n) for n in SYM], run_sym, "all coils, circuits, walls and sensors of the symmetric machines on 42 points"),
            Section("currents", [dict(name=n) for n in SYM], run_total, "every coil of the symmetric machines"),
        ],
        ["the numbers of the tables which do not follow from symmetry are taken as given"],
    )
