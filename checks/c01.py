"""C01: every coil kind produces current x turns x unit response, in any state.

Enumerated: for each coil kind, every sequence of current, turns and position
changes (and evaluations) up to a depth.  Model: a coil is (kind, offset,
current, turns); its loops follow from the kind.  Conformance: after every
operation the real coil is compared with the model's loops (independent
quadrature), with a freshly built coil in the model's state, and with itself
over all ways of evaluating.
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section, tree
from mc import coils, ref

PTS = coils.POINTS
PR = np.array([p[0] for p in PTS])
PZ = np.array([p[1] for p in PTS])

OPS = {
    "I=1500": lambda c, m: (setattr(c, "current", 1500.0), m.update(current=1500.0)),
    "I=-40.5": lambda c, m: (setattr(c, "current", -40.5), m.update(current=-40.5)),
    "I=0": lambda c, m: (setattr(c, "current", 0.0), m.update(current=0.0)),
    "N=5": lambda c, m: (setattr(c, "turns", 5), m.update(turns=5)),
    "N=2": lambda c, m: (setattr(c, "turns", 2), m.update(turns=2)),
    "R+0.2": lambda c, m: (setattr(c, "R", c.R + 0.2), m.update(dR=m["dR"] + 0.2)),
    "R-0.004": lambda c, m: (setattr(c, "R", c.R - 0.004), m.update(dR=m["dR"] - 0.004)),
    "Z-0.3": lambda c, m: (setattr(c, "Z", c.Z - 0.3), m.update(dZ=m["dZ"] - 0.3)),
    "Z+0.003": lambda c, m: (setattr(c, "Z", c.Z + 0.003), m.update(dZ=m["dZ"] + 0.003)),
    "eval": lambda c, m: evaluate(c),
    "control": lambda c, m: (setattr(c, "control", not m["control"]), m.update(control=not m["control"])),
}


def evaluate(c):
    c.psi(1.3, 0.4)
    c.Br(1.3, 0.4)
    c.Bz(PR, PZ)
    c.controlPsi(PR, PZ)
    c.controlBr(PR, PZ)
    c.controlBz(1.3, 0.4)
    c.calcPsiFromGreens(c.createPsiGreens(PR, PZ))
    repr(c)


class Obj:
    def __init__(self, kind):
        self.m = coils.model(kind, current=10.0)
        self.c = coils.build(self.m)
        if kind != "solenoid":
            self.R0, self.Z0 = float(self.c.R), float(self.c.Z)


def apply(o, op):
    OPS[op](o.c, o.m)


def node(ck, kind):
    deep_seen = set()

    def check(o, seq):
        c, m = o.c, o.m
        what = "after " + (" ".join(seq) or "construction")
        ck.step()
        sig = (m["kind"], m["current"], m["turns"], round(m["dR"], 6), round(m["dZ"], 6), m["control"])
        ck.state(*sig)
        ck.same(float(c.current), m["current"], "current " + what)
        ck.same(bool(c.control), m["control"], "control " + what)
        if kind != "solenoid":
            ck.same(c.turns, m["turns"], "turns " + what)
            ck.close(c.R, o.R0 + m["dR"], "reported R " + what, atol=1e-9)
            ck.close(c.Z, o.Z0 + m["dZ"], "reported Z " + what, atol=1e-9)
        out = coils.outline(m)
        if out is not None:
            got = [(float(r), float(z)) for r, z in c.shape]
            ck.same(len(got), len(out), "points of the outline " + what)
            ck.close(got, out, "outline " + what, atol=1e-9)
        elif kind in ("fil", "filone"):
            # no outline given: the extent of the filaments
            f = coils.filaments(m)
            ext = [g(x[i] for x in f) for i in (0, 1) for g in (min, max)]
            ck.close([g(float(x[i]) for x in c.shape) for i in (0, 1) for g in (min, max)], ext, "extent of the outline " + what, atol=1e-9)
        cp, cbr, cbz = c.controlPsi(PR, PZ), c.controlBr(PR, PZ), c.controlBz(PR, PZ)
        want = coils.unit(m)
        coils.compare_fields(ck, (cp, cbr, cbz), want, "of unit current " + what, coils.tolerance(kind))
        I = m["current"]
        B = np.hypot(cbr, cbz).max() * abs(I)
        ck.close(c.psi(PR, PZ), I * cp, "flux is current times response " + what, rtol=1e-10)
        ck.close(c.Br(PR, PZ), I * cbr, "Br is current times response " + what, rtol=1e-9, atol=1e-9 * B)
        ck.close(c.Bz(PR, PZ), I * cbz, "Bz is current times response " + what, rtol=1e-9, atol=1e-9 * B)
        # a coil built in this state
        if sig not in deep_seen:
            deep_seen.add(sig)
            f = coils.build(m)
            if kind == "filauto":
                # where filaments fall depends on rounding of the outline
                coils.compare_fields(ck, (cp, cbr, cbz), (f.controlPsi(PR, PZ), f.controlBr(PR, PZ), f.controlBz(PR, PZ)), "as of a new coil " + what, (4e-2, 8e-2))
            else:
                coils.compare_fields(ck, (cp, cbr, cbz), (f.controlPsi(PR, PZ), f.controlBr(PR, PZ), f.controlBz(PR, PZ)), "as of a new coil " + what, (1e-9, 1e-7))
            # all forms of evaluation
            g = c.createPsiGreens(PR, PZ)
            ck.close(c.calcPsiFromGreens(g), I * cp, "precomputed flux " + what, rtol=1e-10)
            R2, Z2 = np.meshgrid(PR, PZ, indexing="ij")
            p2, b2, z2 = c.psi(R2, Z2), c.Br(R2, Z2), c.Bz(R2, Z2)
            ck.same(np.shape(p2), R2.shape, "shape of flux " + what)
            for i, (r, z) in enumerate(PTS):
                ck.close(c.psi(r, z), I * cp[i], "scalar flux " + what, rtol=1e-9, atol=1e-22)
                ck.close(c.Br(r, z), I * cbr[i], "scalar Br " + what, atol=1e-8 * B + 1e-20)
                ck.close(c.Bz(r, z), I * cbz[i], "scalar Bz " + what, atol=1e-8 * B + 1e-20)
                ck.close(p2[i, i], I * cp[i], "2D flux " + what, rtol=1e-9, atol=1e-22)
                ck.close(b2[i, i], I * cbr[i], "2D Br " + what, atol=1e-8 * B + 1e-20)
                ck.close(z2[i, i], I * cbz[i], "2D Bz " + what, atol=1e-8 * B + 1e-20)
            # changing the current later uses the same precomputed response
            save = c.current
            c.current = 77.0
            ck.close(c.calcPsiFromGreens(g), 77.0 * cp, "precomputed flux, other current " + what, rtol=1e-10)
            c.current = save
            # evaluating has not changed the coil
            ck.close(c.psi(PR, PZ), I * cp, "flux after evaluating " + what, rtol=1e-12)
            ck.same(float(c.current), I, "current after evaluating " + what)
            if kind != "solenoid":
                ck.close(c.R, o.R0 + m["dR"], "R after evaluating " + what, atol=1e-12)
                ck.same(c.turns, m["turns"], "turns after evaluating " + what)
        ck.outcome(kind, I > 0, m["turns"], m["dR"] != 0, m["dZ"] != 0)

    return check


def ops_for(kind):
    ops = ["I=1500", "I=-40.5", "I=0", "eval", "control"]
    if kind != "solenoid":
        ops += ["N=5", "N=2"]
    if coils.KINDS[kind]["move"]:
        ops += ["R+0.2", "R-0.004", "Z-0.3", "Z+0.003"]
    return ops


def run(case, ck):
    kind, prefix, depth = case["kind"], case["prefix"], case["depth"]
    tree(ops_for(kind), depth, prefix, lambda: Obj(kind), apply, node(ck, kind))
    ck.trace(len(ops_for(kind)) ** (depth - len(prefix)))


def run_inputs(case, ck):
    """The lists and arrays given to a constructor stay the caller's."""
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil
    from freegs.shaped_coil import ShapedCoil

    kind, form, moves = case["kind"], case["form"], case["moves"]
    conv = {"list": list, "array": np.array, "tuple": tuple}[form]
    rs, zs = conv(coils.FILR), conv(coils.FILZ)
    shape = [tuple(p) for p in coils.RECT]
    make = {
        "fil": lambda: FilamentCoil(rs, zs, current=3.0),
        "filshape": lambda: FilamentCoil(rs, zs, shape=shape, current=3.0),
        "multilist": lambda: MultiCoil(rs, zs, current=3.0),
        "rect": lambda: ShapedCoil(shape, current=3.0),
    }[kind]
    a, b = make(), make()
    before = b.psi(PR, PZ).copy()
    for mv in moves:
        if mv == "R":
            a.R = a.R + 0.25
        elif mv == "Z":
            a.Z = a.Z - 0.2
        else:
            a.current = 9.0
        ck.step()
    ck.close(b.psi(PR, PZ), before, "a second coil built from the same points", rtol=1e-12)
    ck.same([float(x) for x in rs], coils.FILR, "the caller's R list")
    ck.same([float(x) for x in zs], coils.FILZ, "the caller's Z list")
    ck.same(shape, [tuple(p) for p in coils.RECT], "the caller's outline")
    ck.close(make().psi(PR, PZ), before, "a coil built later from the same points", rtol=1e-12)
    ck.state(case)
    ck.trace()
    ck.outcome(kind, form)


def run_defaults(case, ck):
    """A coil made from its place alone: no current, one turn, controlled"""
    from freegs.coil import Coil
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil
    from freegs.shaped_coil import ShapedCoil
    from freegs.machine import Machine, Circuit, Solenoid

    rs, zs, shape = list(coils.FILR), list(coils.FILZ), [tuple(p) for p in coils.RECT]
    c = {
        "point": lambda: Coil(1.0, 0.2),
        "shaped": lambda: ShapedCoil(shape),
        "fil": lambda: FilamentCoil(rs, zs),
        "filshape": lambda: FilamentCoil(rs, zs, shape=shape),
        "filauto": lambda: FilamentCoil(shape=shape),
        "multi": lambda: MultiCoil(rs, zs),
        "solenoid": lambda: Solenoid(0.2, -1.0, 1.0, 10),
        "circuit": lambda: Circuit([("A", Coil(1.0, 0.2), 1.0), ("B", Coil(1.0, -0.2), -1.0)]),
    }[case["kind"]]()
    unit = c.controlPsi(PR, PZ)
    ck.expect(c.current == 0.0, "starts without current")
    ck.close(c.psi(PR, PZ), 0 * unit, "no flux without current", atol=0)
    ck.expect(bool(c.control), "is controlled unless told otherwise")
    m = Machine([("x", c)])
    ck.same(len(m.controlCurrents()), 1, "currents addressed by the control system")
    m.controlAdjust(np.array([2.5]))
    ck.close(m.psi(PR, PZ), 2.5 * unit, "flux after an adjustment", rtol=1e-12)
    if case["kind"] not in ("solenoid", "circuit", "multi"):
        ck.expect(c.turns == 1, "one turn")
        far = c.controlPsi(np.array([60.0]), np.array([5.0]))
        one = Coil(c.R, c.Z).controlPsi(np.array([60.0]), np.array([5.0]))
        ck.close(far, one, "one turn far away", rtol=0.05)
    if case["kind"] == "fil":
        ck.close([c.R, c.Z], [(min(rs) + max(rs)) / 2, (min(zs) + max(zs)) / 2], "centre of the filaments", rtol=1e-9)
    ck.state(case)
    ck.step()
    ck.trace()
    ck.outcome("default", case["kind"])


METHODS = ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz", "greens")


def run_shared(case, ck):
    """Evaluations sharing array objects which are changed in place between"""
    kind = case["kind"]
    ms = [coils.model(kind, current=10.0), coils.model(kind, current=-3.0)]
    if coils.KINDS[kind]["move"]:
        ms[1].update(dR=0.07, dZ=-0.05)
    cs = [coils.build(m) for m in ms]
    R, Z = np.zeros(PR.shape), np.zeros(PR.shape)
    data = [(PR, PZ), (PR + 0.013, PZ), (PR, PZ - 0.017)]

    def ev(c, name, R, Z):
        if name == "greens":
            return c.calcPsiFromGreens(c.createPsiGreens(R, Z))
        return getattr(c, name)(R, Z)

    kept = []
    for name, k, d in case["calls"]:
        R[:], Z[:] = data[d]
        got = ev(cs[k], name, R, Z)
        ck.step()
        ck.expect(np.array_equal(R, data[d][0]) and np.array_equal(Z, data[d][1]), "the points are not modified")
        # every point on its own, by a new coil
        f = coils.build(ms[k])
        want = [float(np.ravel(ev(f, name, float(r), float(z)))[0]) for r, z in zip(*data[d])]
        ck.close(got, want, "%s of coil %d at points %d in %s" % (name, k, d, case["calls"]), rtol=1e-9, atol=1e-8 * np.abs(want).max())
        for g, w in kept:
            ck.expect(np.array_equal(g, w), "earlier results are not changed by a later call")
        kept.append((got, np.array(got, copy=True)))
    name, k, d = case["calls"][-1]
    got *= 3.0
    ck.close(ev(cs[k], name, R, Z), np.array(want), "the result belongs to the caller", rtol=1e-9, atol=1e-8 * np.abs(want).max())
    ck.state(kind, case["calls"])
    ck.trace()
    ck.outcome("shared", kind)


def check(tier):
    depth = 3 if tier == "quick" else 4
    cases = []
    for kind in coils.KINDS:
        ops = ops_for(kind)
        d = depth + (1 if not coils.KINDS[kind]["move"] else 0)
        if kind == "filauto":
            d -= 1
        cases += [{"kind": kind, "prefix": [], "depth": 1}]
        cases += [{"kind": kind, "prefix": [a], "depth": d} for a in ops]
    inputs = [
        {"kind": k, "form": f, "moves": list(mv)}
        for k in ("fil", "filshape", "multilist", "rect")
        for f in ("list", "array", "tuple")
        for n in (1, 2, 3)
        for mv in itertools.product("RZI", repeat=n)
    ]
    acts = [(n, k, d) for n in METHODS for k in (0, 1) for d in range(3)]
    shared = [
        {"kind": kind, "calls": [list(a), list(b)]}
        for kind in coils.KINDS
        for a in acts
        for b in acts
        if tier != "quick" or (a[0] == b[0] or {a[0], b[0]} == {"psi", "controlPsi"})
    ]
    return CheckDef(
        "C01",
        [
            Section("histories", cases, run, "all operation sequences of length <= %d (precalculated and solenoid coils %d) for %d coil kinds" % (depth, depth + 1, len(coils.KINDS))),
            Section("shared arrays", shared, run_shared, "all pairs of evaluations of two coils with arrays changed in place"),
            Section("defaults", [{"kind": k} for k in ("point", "shaped", "fil", "filshape", "filauto", "multi", "solenoid", "circuit")], run_defaults, "all coil kinds made from their place alone"),
            Section("caller's data", inputs, run_inputs, "all sequences of up to 3 moves/current changes"),
        ],
        [
            "shaped coils are compared with the exact area average within the accuracy of their quadrature rule, and exactly with a coil built in place",
            "precalculated coils are not moved: their maps are supplied for a fixed position",
        ],
    )
