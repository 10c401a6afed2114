"""C02: a circuit's current and control flag rule all of its coils.

Enumerated: all circuits of one to three coils with multipliers from a small
set, and all sequences of circuit, member and machine operations up to a depth.
Model: circuit = (current, control, [member loops, multiplier]).
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section, tree
from mc import coils, ref

PR = np.array([0.4, 1.5, 2.2])
PZ = np.array([0.3, -0.9, 0.05])
MULT = [1.0, -1.0, 0.5, 0.0, 2.0]
POS = [(1.0, 0.8, 1), (1.3, -0.7, 3), (0.8, 0.1, 2)]
SHAPE = [(0.95, 0.75), (0.95, 0.85), (1.05, 0.85), (1.05, 0.75)]


class Obj:
    """A machine [other coil, circuit] and the model of it"""

    def __init__(self, mults, kinds, I0, ctl0):
        from freegs.machine import Machine, Circuit
        from freegs.coil import Coil
        from freegs.shaped_coil import ShapedCoil

        self.mults = mults
        self.pos = [list(POS[i]) for i in range(len(mults))]
        members = []
        for i, (mu, k) in enumerate(zip(mults, kinds)):
            r, z, n = self.pos[i]
            # deliberately inconsistent initial member state
            if k == "shaped":
                c = ShapedCoil([(r - 0.05, z - 0.05), (r - 0.05, z + 0.05), (r + 0.05, z + 0.05), (r + 0.05, z - 0.05)], current=3.0 + i, turns=n, control=not ctl0)
            else:
                c = Coil(r, z, current=3.0 + i, turns=n, control=not ctl0)
            members.append(("c%d" % i, c, mu))
        self.coils = [c for _, c, _ in members]
        self.kinds = kinds
        self.I, self.ctl = I0, ctl0
        self.circuit = Circuit(members, current=I0, control=ctl0)
        self.other = Coil(2.0, 0.0, current=11.0)
        self.oI = 11.0
        self.machine = Machine([("other", self.other), ("circ", self.circuit)])
        # member current set directly since the last circuit operation
        self.dirty = set()

    def unit(self):
        tot = 0
        for (r, z, n), mu, k in zip(self.pos, self.mults, self.kinds):
            tot = tot + mu * n * np.array(loop(round(r, 9), round(z, 9), k))
        return tot


_cache = {}


def loop(r, z, kind="point"):
    if (r, z, kind) not in _cache:
        if kind == "shaped":
            fils = [(x + r - 1.0, y + z, w) for x, y, w in coils.base_filaments("rect")]
            _cache[r, z, kind] = np.array(ref.filaments(fils, PR, PZ))
        else:
            _cache[r, z, kind] = np.array(ref.loop(r, z, PR, PZ))
    return _cache[r, z, kind]


def op_apply(o, op):
    c, m = o.circuit, o.machine
    if op == "I=200":
        c.current = 200.0
        o.I, o.dirty = 200.0, set()
    elif op == "I=-7":
        c.current = -7.0
        o.I, o.dirty = -7.0, set()
    elif op == "I+=5":
        c.current += 5.0
        o.I, o.dirty = o.I + 5.0, set()
    elif op == "ctl":
        c.control = not o.ctl
        o.ctl = not o.ctl
    elif op == "member I":
        o.coils[0].current = 999.0
        o.dirty.add(0)
    elif op == "member N":
        o.coils[-1].turns = o.pos[-1][2] = o.pos[-1][2] + 1
    elif op == "member Z":
        o.coils[0].Z = o.coils[0].Z + 0.125
        o.pos[0][1] += 0.125
    elif op == "set":
        # machine level: values for the controlled coils in order
        vals = [31.0] + ([-60.0] if o.ctl else [])
        m.setControlCurrents(vals)
        o.oI = 31.0
        if o.ctl:
            o.I, o.dirty = -60.0, set()
    elif op == "adjust":
        vals = [1.0] + ([4.0] if o.ctl else [])
        m.controlAdjust(np.array(vals))
        o.oI += 1.0
        if o.ctl:
            o.I += 4.0
            o.dirty = set()
    elif op == "eval":
        c.psi(PR, PZ)
        c.Br(1.2, 0.3)
        m.psi(PR, PZ)
        m.calcPsiFromGreens(m.createPsiGreens(PR, PZ))
    elif op == "forces":
        m.getForces()
    else:
        raise KeyError(op)


OPS = ["I=200", "I=-7", "I+=5", "ctl", "member I", "member N", "member Z", "set", "adjust", "eval", "forces"]


def node(ck):
    def check(o, seq):
        what = "after " + (" ".join(seq) or "construction")
        ck.step()
        ck.state(o.mults, o.kinds, o.I, o.ctl, o.oI, [[round(v, 6) for v in p] for p in o.pos], sorted(o.dirty))
        ck.close(o.circuit.current, o.I, "circuit current " + what, rtol=1e-12)
        ck.same(bool(o.circuit.control), o.ctl, "circuit control " + what)
        ck.close(o.other.current, o.oI, "current of another coil " + what, rtol=1e-12)
        for i, (c, mu) in enumerate(zip(o.coils, o.mults)):
            if i not in o.dirty:
                ck.close(c.current, mu * o.I, "current of coil %d (x%g) %s" % (i, mu, what), rtol=1e-12, atol=1e-12)
            ck.same(bool(c.control), o.ctl, "control of coil %d %s" % (i, what))
            ck.expect(o.circuit["c%d" % i] is c, "circuit member by name")
        ck.close(o.machine.getCurrents()["circ"], o.I, "machine's circuit current " + what, rtol=1e-12)
        want = o.unit()
        tol = 1e-5 if "shaped" in o.kinds else 1e-8
        # scale of the individual members, as these may cancel
        sc = sum(abs(mu) * n * np.abs(loop(round(r, 9), round(z, 9))) for (r, z, n), mu in zip(o.pos, o.mults))
        B = max(sc[1].max(), sc[2].max()) + 1e-30
        fields = (
            ("psi", 0, tol * sc[0].max()),
            ("Br", 1, max(tol, 2e-3) * B),
            ("Bz", 2, max(tol, 2e-3) * B),
        )
        def at_first(f, *args):
            # every evaluation on its own overrides a directly set member
            for k in o.dirty:
                o.coils[k].current = 999.0
            return f(*args)

        for name, i, at in fields:
            ck.close(at_first(getattr(o.circuit, "control" + name.capitalize() if name == "psi" else "control" + name), PR, PZ), want[i], "unit response %s %s" % (name, what), atol=at + 1e-30)
            ck.close(at_first(getattr(o.circuit, name), PR, PZ), o.I * want[i], "%s %s" % (name, what), atol=abs(o.I) * at + 1e-30)
            ck.close(getattr(o.circuit, name)(float(PR[1]), float(PZ[1])), o.I * want[i][1], "%s at one point %s" % (name, what), atol=abs(o.I) * at + 1e-30)
        g = o.circuit.createPsiGreens(PR, PZ)
        ck.close(at_first(o.circuit.calcPsiFromGreens, g), o.I * want[0], "precomputed flux " + what, atol=abs(o.I) * tol * sc[0].max() + 1e-30)
        tot = o.I * want + o.oI * loop(2.0, 0.0)
        sc = abs(o.I) * sc + abs(o.oI) * np.abs(loop(2.0, 0.0))
        Bs = 2e-3 * max(sc[1].max(), sc[2].max())
        ck.close(at_first(o.machine.psi, PR, PZ), tot[0], "machine flux " + what, atol=tol * sc[0].max())
        ck.close(at_first(o.machine.calcPsiFromGreens, o.machine.createPsiGreens(PR, PZ)), tot[0], "machine flux, precomputed, " + what, atol=tol * sc[0].max())
        ck.close(at_first(o.machine.Br, PR, PZ), tot[1], "machine Br " + what, atol=Bs)
        ck.close(at_first(o.machine.Bz, PR, PZ), tot[2], "machine Bz " + what, atol=Bs)
        for k in o.dirty:
            o.coils[k].current = 999.0
        ck.close(o.circuit.current, o.I, "circuit current after evaluation " + what, rtol=1e-12)
        ck.outcome(o.ctl, o.I > 0, len(o.dirty))

    return check


def run(case, ck):
    mk = lambda: Obj(case["mults"], case["kinds"], case["I0"], case["ctl0"])
    tree(OPS, case["depth"], case["prefix"], mk, op_apply, node(ck))
    ck.trace(len(OPS) ** (case["depth"] - len(case["prefix"])))


def run_mirrored(case, ck):
    from freegs.machine import MirroredCoil

    R, Z, I, N, ctl, sym = case
    kw = {} if sym is None else {"symmetric": sym}
    c = MirroredCoil(R, Z, current=I, turns=N, control=ctl, **kw)
    s = 1.0 if sym in (None, True) else -1.0
    for I2 in (I, 4.0, -2.5):
        if I2 != I:
            c.current = I2
        want = I2 * N * (np.array(ref.loop(R, Z, PR, PZ)) + s * np.array(ref.loop(R, -Z, PR, PZ)))
        sc = abs(I2) * N * np.abs(np.array(ref.loop(R, Z, PR, PZ))).max(axis=1)
        ck.close(c.psi(PR, PZ), want[0], "flux of the pair", atol=1e-8 * sc[0] + 1e-20)
        ck.close(c.Br(PR, PZ), want[1], "Br of the pair", atol=2e-3 * max(sc[1:]) + 1e-20)
        ck.close(c.Bz(PR, PZ), want[2], "Bz of the pair", atol=2e-3 * max(sc[1:]) + 1e-20)
        got = sorted((float(x.Z), float(x.R), float(x.current)) for _, x, _ in c.coils)
        exp = sorted([(Z, R, I2), (-Z, R, s * I2)])
        ck.same(len(got), 2, "coils in the pair")
        ck.close(got, exp, "height, radius and current of the pair", atol=1e-12)
        ck.step()
    ck.same([bool(x.control) for _, x, _ in c.coils] + [bool(c.control)], [ctl] * 3, "control flags")
    ck.state(case)
    ck.trace()
    ck.outcome(sym, ctl, np.sign(Z))


def check(tier):
    q = tier == "quick"
    cases = []
    for n in (1, 2, 3):
        for mults in itertools.product(MULT, repeat=n):
            if q and n == 3 and len(set(mults)) < 2:
                continue
            d = (3 if n == 1 else 2 if n == 2 else 1) if q else (4 if n == 1 else 3 if n == 2 else 2)
            kinds = ["point"] * n
            pre = [[]] if d < 3 else [[]] + [[a] for a in OPS]
            for p in pre:
                dd = 1 if (p == [] and len(pre) > 1) else d
                cases.append(dict(mults=list(mults), kinds=kinds, I0=12.5, ctl0=True, prefix=p, depth=dd))
    for mults in ([1.0, -1.0], [0.5, 2.0]):
        for ctl0 in (True, False):
            d = 3 if q else 4
            for p in [[]] + [[a] for a in OPS]:
                cases.append(dict(mults=mults, kinds=["point", "shaped"], I0=0.0, ctl0=ctl0, prefix=p, depth=1 if p == [] else d))
    mirrored = [
        list(t)
        for t in itertools.product([0.6, 1.4], [0.9, 0.3, -0.5, 0.0], [0.0, 100.0, -3.0], [1, 7], [True, False], [None, True, False])
    ]
    return CheckDef(
        "C02",
        [
            Section("circuit histories", cases, run, "all circuits of 1-3 coils with multipliers from %s; operation sequences of length %s for 1/2/3 coils" % (MULT, "3/2/1" if q else "4/3/2")),
            Section("mirrored pairs", mirrored, run_mirrored, "all combinations of position, current, turns, control and symmetry"),
        ],
        ["coils of a circuit have distinct labels"],
    )
