"""C04: coil forces are Lorentz force of everything else plus the hoop force.

Enumerated: all machines of up to three coils over the coil kinds, grouped in
every way into circuits, with and without plasma, over current signs including
zero, and sequences of (compute forces, change current, move) operations.
Oracle: field of the other coils' loops (independent quadrature) and of a
polynomial plasma flux which the spline represents exactly.
"""

import functools
import itertools
import numpy as np
from mc.core import CheckDef, Section, tree
from mc import ref, coils

MU0 = ref.MU0
PLACES = [(1.2, 0.7), (1.5, -0.6), (0.7, 0.1)]
SQ = 0.04  # half width of shaped coils


def spec(kind, i, current):
    r, z = PLACES[i]
    return dict(kind=kind, R=r, Z=z, I=current, N={0: 1, 1: 3, 2: 2}[i])


def build(s):
    from freegs.coil import Coil, AreaCurrentLimit
    from freegs.shaped_coil import ShapedCoil
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil

    r, z = s["R"], s["Z"]
    sq = [(r - SQ, z - SQ), (r - SQ, z + SQ), (r + SQ, z + SQ), (r + SQ, z - SQ)]
    kw = dict(current=s["I"], turns=s["N"])
    if s["kind"] == "point":
        return Coil(r, z, **kw)
    if s["kind"] == "density":
        return Coil(r, z, area=AreaCurrentLimit(2e6), **kw)
    if s["kind"] == "area":
        return Coil(r, z, area=0.01, **kw)
    if s["kind"] == "shaped":
        return ShapedCoil(sq, **kw)
    if s["kind"] == "fil":
        return FilamentCoil([r - SQ, r + SQ, r], [z, z, z + SQ], shape=sq, **kw)
    if s["kind"] == "multi":
        return MultiCoil(r, z, area=0.02, **kw)
    raise KeyError(s["kind"])


def area(s):
    k = s["kind"]
    if k == "area":
        return 0.01
    if k == "multi":
        return 0.02
    if k in ("shaped", "fil"):
        return (2 * SQ) ** 2
    dens = {"point": 3.5e9, "density": 2e6}[k]
    return abs(s["I"] * s["N"]) / dens


def loops(s):
    r, z = s["R"], s["Z"]
    w = s["I"] * s["N"]
    if s["kind"] == "shaped":
        sc = SQ / 0.05
        return [(r + (x - 1.0) * sc, z + y * sc, f * w) for x, y, f in coils.base_filaments("rect")]
    if s["kind"] == "fil":
        return [(r - SQ, z, w / 3), (r + SQ, z, w / 3), (r, z + SQ, w / 3)]
    return [(r, z, w)]


PLASMA = {"A": 0.08, "B": -0.05}  # psi = A R^2 + B R^2 Z


def plasma_field(on, r, z):
    if not on:
        return 0.0, 0.0
    a, b = (PLASMA["A"], PLASMA["B"]) if on == 1 else (-2 * PLASMA["A"], 0.03)
    return -b * r, 2 * a + 2 * b * z


def plasma_psi(on, R, Z):
    a, b = (PLASMA["A"], PLASMA["B"]) if on == 1 else (-2 * PLASMA["A"], 0.03)
    return a * R**2 + b * R**2 * Z


@functools.lru_cache(None)
def unit_field(kind, r0, z0, r, z):
    _, b, c = ref.filaments(loops(dict(kind=kind, R=r0, Z=z0, I=1.0, N=1)), r, z)
    return float(b), float(c)


def expected(specs, i, plasma):
    s = specs[i]
    J = s["I"] * s["N"]
    br, bz = plasma_field(plasma, s["R"], s["Z"])
    for j, o in enumerate(specs):
        if j != i:
            w = o["I"] * o["N"]
            b, c = unit_field(o["kind"], round(o["R"], 9), round(o["Z"], 9), round(s["R"], 9), round(s["Z"], 9))
            b, c = b * w, c * w
            br, bz = br + b, bz + c
    L = 2 * np.pi * s["R"]
    hoop = 0.0
    if J != 0:
        a = np.sqrt(area(s) / np.pi)
        hoop = MU0 * J**2 / (4 * np.pi * s["R"]) * (np.log(8 * s["R"] / a) - 1 + 0.25)
    scale = abs(J) * L * (abs(br) + abs(bz)) + abs(hoop) * L
    return (J * bz + hoop) * L, -J * br * L, scale


class Obj:
    def __init__(self, kinds, currents, group, plasma):
        from freegs.machine import Machine, Circuit
        from freegs.equilibrium import Equilibrium

        self.specs = [spec(k, i, I) for i, (k, I) in enumerate(zip(kinds, currents))]
        self.plasma = plasma
        self.coils = [build(s) for s in self.specs]
        self.where = {}
        lst = []
        # group: tuple of tuples of coil indices; singletons stand alone
        for g, mem in enumerate(group):
            if len(mem) == 1 and mem[0] >= 0:
                i = mem[0]
                lst.append(("k%d" % i, self.coils[i]))
                self.where[i] = ("k%d" % i, None)
            else:
                idx = [abs(m) - 10 if m < 0 else m for m in mem]
                # circuit current is that of the first member with current
                lead = next((i for i in idx if self.specs[i]["I"] != 0), idx[0])
                Ic = self.specs[lead]["I"] or 1.0
                members = [("k%d" % i, self.coils[i], self.specs[i]["I"] / Ic) for i in idx]
                lst.append(("g%d" % g, Circuit(members, current=Ic)))
                for i in idx:
                    self.where[i] = ("g%d" % g, "k%d" % i)
        self.groups = group
        self.machine = Machine(lst)
        self.eq = None
        if plasma:
            self.setplasma(plasma)

    def setplasma(self, p):
        from freegs.equilibrium import Equilibrium

        self.plasma = p
        R, Z = np.meshgrid(np.linspace(0.2, 2.0, 9), np.linspace(-1.0, 1.0, 9), indexing="ij")
        self.eq = Equilibrium(self.machine, Rmin=0.2, Rmax=2.0, Zmin=-1.0, Zmax=1.0, nx=9, ny=9, psi=plasma_psi(p, R, Z))

    def forces(self):
        return self.eq.getForces() if self.eq is not None else self.machine.getForces()


def get(forces, where):
    f = forces[where[0]]
    return f if where[1] is None else f[where[1]]


def verify(o, ck, what):
    ck.step()
    before = [(float(c.current), float(c.R), float(c.Z)) for c in o.coils]
    psi0 = o.machine.psi(1.9, 0.33)
    lab = [l for l, _ in o.machine.coils]
    F = o.forces()
    ck.same(sorted(F), sorted(lab), "labels of the forces " + what)
    fz, fzs = 0.0, 0.0
    for i, s in enumerate(o.specs):
        wr, wz, sc = expected(o.specs, i, o.plasma)
        f = np.asarray(get(F, o.where[i]), dtype=float)
        ck.same(f.shape, (2,), "force components " + what)
        ck.expect(np.all(np.isfinite(f)), "finite force on coil %d (%s) %s: %s" % (i, s["kind"], what, f))
        ck.close(f[0], wr, "radial force on coil %d (%s) %s" % (i, s["kind"], what), atol=3e-3 * sc + 1e-25)
        ck.close(f[1], wz, "vertical force on coil %d (%s) %s" % (i, s["kind"], what), atol=3e-3 * sc + 1e-25)
        fz += f[1]
        fzs += sc
    if not o.plasma and all(s["kind"] in ("point", "area", "density", "multi") for s in o.specs):
        ck.close(fz, 0.0, "sum of vertical forces " + what, atol=3e-3 * fzs + 1e-25)
    after = [(float(c.current), float(c.R), float(c.Z)) for c in o.coils]
    ck.close(after, before, "currents and positions after computing forces " + what, rtol=1e-13)
    ck.close(o.machine.psi(1.9, 0.33), psi0, "flux after computing forces " + what, rtol=1e-12)
    ck.same([l for l, _ in o.machine.coils], lab, "coils after computing forces " + what)
    F2 = o.forces()
    for i in range(len(o.specs)):
        ck.close(get(F2, o.where[i]), get(F, o.where[i]), "forces computed again " + what, rtol=1e-12)
    ck.state([dict(s) for s in o.specs], o.groups, o.plasma)


def run_static(case, ck):
    o = Obj(case["kinds"], case["I"], case["group"], case["plasma"])
    verify(o, ck, "")
    ck.trace()
    ck.outcome(len(case["kinds"]), str(case["group"]), case["plasma"])


OPS = ["forces", "I0*2", "I0=-5e3", "I0=0", "move1", "plasma", "N0+1"]


def apply(o, op):
    s0 = o.specs[0]
    if op == "forces":
        o.forces()
    elif op.startswith("I0"):
        new = s0["I"] * 2 if op == "I0*2" else (-5e3 if op == "I0=-5e3" else 0.0)
        lab, sub = o.where[0]
        if sub is None:
            o.machine[lab].current = new
            s0["I"] = new
        else:
            # circuit current; all members follow
            circ = o.machine[lab]
            for i, (l, s) in o.where.items():
                if l == lab:
                    mu = [m for n, _, m in circ.coils if n == "k%d" % i][0]
                    o.specs[i]["I"] = mu * new
            circ.current = new
    elif op == "move1":
        i = len(o.specs) - 1
        o.coils[i].Z = o.coils[i].Z - 0.05
        o.specs[i]["Z"] -= 0.05
    elif op == "plasma":
        if o.eq is not None:
            o.setplasma(2 if o.plasma == 1 else 1)
    elif op == "N0+1":
        o.coils[0].turns += 1
        s0["N"] += 1


def run_hist(case, ck):
    mk = lambda: Obj(case["kinds"], case["I"], case["group"], case["plasma"])
    tree(OPS, case["depth"], [], mk, apply, lambda o, seq: verify(o, ck, "after " + " ".join(seq)))
    ck.trace(len(OPS) ** case["depth"])
    ck.outcome(str(case["group"]), case["plasma"])


GROUPS = {
    1: [[[0]], [[-10]]],
    2: [[[0], [1]], [[0, 1]], [[-10], [1]], [[1], [0]]],
    3: [[[0], [1], [2]], [[0, 1], [2]], [[0], [1, 2]], [[0, 2], [1]], [[0, 1, 2]], [[2, 1, 0]]],
}


def check(tier):
    q = tier == "quick"
    kinds = ["point", "area", "density", "shaped", "fil", "multi"]
    curr = [2e4, -1e4, 0.0] if not q else [2e4, -1e4]
    cases = []
    for n in (1, 2, 3):
        for ks in itertools.product(kinds if n < 3 else (["point", "area", "shaped"] if q else kinds), repeat=n):
            for Is in itertools.product([2e4, -1e4, 0.0] if n < 3 else curr, repeat=n):
                for g in GROUPS[n]:
                    for p in (0, 1, 2) if n < 3 else (0, 1):
                        if q and n == 3 and len(set(ks)) == 1 and ks[0] != "point":
                            continue
                        cases.append(dict(kinds=list(ks), I=list(Is), group=g, plasma=p))
    hist = []
    d = 2 if q else 3
    for ks in (["point", "point"], ["area", "shaped"], ["point", "multi", "shaped"]):
        for g in GROUPS[len(ks)]:
            for p in (0, 1):
                hist.append(dict(kinds=ks, I=[2e4, -1e4, 5e3][: len(ks)], group=g, plasma=p, depth=d))
    return CheckDef(
        "C04",
        [
            Section("machines", cases, run_static, "all machines of <=3 coils x current signs x grouping into circuits x plasma"),
            Section("histories", hist, run_hist, "all operation sequences of length <= %d" % d),
        ],
        ["force formula as documented (Garren & Chen hoop force, uniform current)", "field differences over 1 mm: forces compared to 3e-3 of their scale"],
    )
