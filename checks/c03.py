"""C03: the control vector addresses exactly the controlled coils, in order.

Enumerated: every machine of up to four slots over the coil kinds x every
subset of enabled controls x every sequence of set/adjust/toggle operations.
Model: list of (unit response, current, control).
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section, tree
from mc import coils, ref

PTS = ((0.4, 0.35), (1.9, -0.8), (2.3, 0.4))
PR = np.array([p[0] for p in PTS])
PZ = np.array([p[1] for p in PTS])
SLOTS = ["point", "circuit", "solenoid", "rect", "fil", "multilist", "precalc", "mirror-"]


def circ_unit():
    return 1.0 * np.array(ref.loop(1.2, 0.9, PR, PZ)) - 0.5 * 2 * np.array(ref.loop(1.4, -0.6, PR, PZ))


_units = {}


def unit(kind, i):
    if (kind, i) not in _units:
        if kind == "circuit":
            _units[kind, i] = circ_unit()
        else:
            m = slot_model(kind, i)
            _units[kind, i] = np.array(coils.unit(m, PTS))
    return _units[kind, i]


def slot_model(kind, i):
    m = coils.model(kind)
    if coils.KINDS[kind]["move"]:
        m["dZ"] = [0.0, -0.5, 0.3, 0.6][i]
    return m


class Obj:
    def __init__(self, kinds, ctl):
        from freegs.machine import Machine, Circuit
        from freegs.coil import Coil

        self.kinds = kinds
        self.I = [100.0 * (i + 1) for i in range(len(kinds))]
        self.ctl = list(ctl)
        lst = []
        for i, k in enumerate(kinds):
            if k == "circuit":
                c = Circuit([("a", Coil(1.2, 0.9), 1.0), ("b", Coil(1.4, -0.6, turns=2), -0.5)], current=self.I[i], control=self.ctl[i])
            else:
                m = slot_model(k, i)
                m.update(current=self.I[i], control=self.ctl[i])
                c = coils.build(m)
            lst.append(("s%d" % i, c))
        self.m = Machine(lst)
        self.coils = [c for _, c in lst]
        self.before = None


def apply(o, op):
    on = [i for i, c in enumerate(o.ctl) if c]
    o.before = (list(o.I), o.m.psi(PR, PZ) if o.kinds else None)
    if op == "set":
        vals = [7.0 * (j + 1) for j in range(len(on))]
        o.m.setControlCurrents(vals)
        for i, v in zip(on, vals):
            o.I[i] = v
    elif op == "set array":
        vals = np.array([-3.0 - j for j in range(len(on))])
        o.m.setControlCurrents(vals)
        for i, v in zip(on, vals):
            o.I[i] = float(v)
    elif op == "set own":
        o.m.setControlCurrents(o.m.controlCurrents())
    elif op == "adjust":
        vals = np.array([2.0 + j for j in range(len(on))])
        o.m.controlAdjust(vals)
        for i, v in zip(on, vals):
            o.I[i] += float(v)
    elif op == "adjust col":
        vals = np.array([[-1.5 * (j + 1)] for j in range(len(on))]).reshape(-1, 1)
        o.m.controlAdjust(vals)
        for i, v in zip(on, vals):
            o.I[i] += float(v[0])
    elif op == "adjust tiny":
        vals = np.array([2e-5 * (j + 1) for j in range(len(on))])
        o.m.controlAdjust(vals)
        for i, v in zip(on, vals):
            o.I[i] += float(v)
    elif op == "adjust mixed":
        # none, large, opposite, small, in turn
        vals = np.array([(0.0, 4e6, -o.I[i], -1e-3)[(j + len(on)) % 4] for j, i in enumerate(on)])
        o.m.controlAdjust(vals)
        for i, v in zip(on, vals):
            o.I[i] += float(v)
    elif op == "set zero":
        o.m.setControlCurrents([0.0] * len(on))
        for i in on:
            o.I[i] = 0.0
    elif op.startswith("toggle"):
        i = int(op[6:])
        if i < len(o.ctl):
            o.ctl[i] = not o.ctl[i]
            o.m["s%d" % i].control = o.ctl[i]
    elif op.startswith("I"):
        i = int(op[1:])
        if i < len(o.I):
            o.m["s%d" % i].current = 55.0
            o.I[i] = 55.0
    elif op == "eval":
        if o.kinds:
            o.m.psi(1.1, 0.1)
            o.m.controlPsi(1.1, 0.1)
            o.m.controlBr(PR, PZ)
            o.m.Bz(PR, PZ)
    else:
        raise KeyError(op)


OPS = ["set", "set array", "set own", "adjust", "adjust col", "adjust tiny", "adjust mixed", "set zero", "toggle0", "toggle1", "toggle2", "I0", "I1", "eval"]


def node(ck):
    def check(o, seq):
        what = "after " + (" ".join(seq) or "construction")
        ck.step()
        ck.state(o.kinds, o.ctl, [round(x, 6) for x in o.I])
        on = [i for i, c in enumerate(o.ctl) if c]
        cc = [float(x) for x in o.m.controlCurrents()]
        ck.same(len(cc), len(on), "number of controls " + what)
        ck.close(cc, [o.I[i] for i in on], "control currents " + what, rtol=1e-12)
        cur = o.m.getCurrents()
        ck.same(sorted(cur), sorted("s%d" % i for i in range(len(o.kinds))), "labels " + what)
        ck.close([cur["s%d" % i] for i in range(len(o.kinds))], o.I, "currents of all coils " + what, rtol=1e-12)
        n = len(o.kinds)
        if n == 0:
            return
        U = [unit(k, i) for i, k in enumerate(o.kinds)]
        tols = [coils.tolerance(k) if k != "circuit" else (1e-8, 2e-3) for k in o.kinds]
        cp, cb, cz = o.m.controlPsi(PR, PZ), o.m.controlBr(PR, PZ), o.m.controlBz(PR, PZ)
        for lst, nm in ((cp, "psi"), (cb, "Br"), (cz, "Bz")):
            ck.same(len(lst), len(on), "number of %s responses %s" % (nm, what))
        for j, i in enumerate(on):
            coils.compare_fields(ck, (cp[j], cb[j], cz[j]), U[i], "response of control %d (%s) %s" % (j, o.kinds[i], what), tols[i])
        # points one at a time: one scalar response per control
        s = o.m.controlPsi(PTS[0][0], PTS[0][1])
        ck.close(s, [cp[j][0] for j in range(len(on))], "scalar responses " + what, rtol=1e-9)
        s = o.m.controlBr(PTS[0][0], PTS[0][1])
        ck.close(s, [cb[j][0] for j in range(len(on))], "scalar Br responses " + what, rtol=1e-6, atol=1e-15)
        tot = sum(I * u for I, u in zip(o.I, U))
        sc = sum(abs(I) * np.abs(u) for I, u in zip(o.I, U))
        tp = max(t[0] for t in tols)
        tb = max(t[1] for t in tols)
        Bs = max(sc[1].max(), sc[2].max())
        ck.close(o.m.psi(PR, PZ), tot[0], "machine flux " + what, atol=tp * sc[0].max())
        ck.close(o.m.calcPsiFromGreens(o.m.createPsiGreens(PR, PZ)), o.m.psi(PR, PZ), "precomputed flux " + what, rtol=0, atol=1e-10 * sc[0].max())
        ck.close(o.m.Br(PR, PZ), tot[1], "machine Br " + what, atol=tb * Bs)
        ck.close(o.m.Bz(PR, PZ), tot[2], "machine Bz " + what, atol=tb * Bs)
        # a control step changes the flux by responses times current changes
        if o.before is not None and seq and not seq[-1].startswith("I"):
            dI = [a - b for a, b in zip(o.I, o.before[0])]
            pred = o.before[1] + sum((dI[i] * cp[j] for j, i in enumerate(on)), np.zeros(len(PTS)))
            ck.close(o.m.psi(PR, PZ), pred, "flux change of a control step " + what, atol=1e-9 * sum((abs(I) + abs(J)) * np.abs(u[0]).max() for I, J, u in zip(o.I, o.before[0], U)))
        # evaluation changed nothing
        ck.close([float(x) for x in o.m.controlCurrents()], [o.I[i] for i in on], "control currents after evaluation " + what, rtol=1e-12)
        ck.outcome(len(on), n)

    return check


def run(case, ck):
    tree(OPS, case["depth"], case["prefix"], lambda: Obj(case["kinds"], case["ctl"]), apply, node(ck))
    ck.trace(len(OPS) ** (case["depth"] - len(case["prefix"])))


def check(tier):
    q = tier == "quick"
    cases = []
    # every pair/triple of kinds, all control subsets, short histories
    combos = [[]] + [[k] for k in SLOTS] + [list(t) for t in itertools.product(SLOTS, repeat=2)]
    for kinds in combos:
        for ctl in itertools.product([True, False], repeat=len(kinds)):
            cases.append(dict(kinds=kinds, ctl=list(ctl), prefix=[], depth=1 if q else 2))
    trip = [["point", "circuit", "rect"], ["circuit", "point", "solenoid"], ["fil", "multilist", "circuit"], ["point", "point", "point"]]
    if not q:
        trip = [list(t) for t in itertools.product(SLOTS[:5], repeat=3)]
    for kinds in trip:
        for ctl in itertools.product([True, False], repeat=3):
            cases.append(dict(kinds=kinds, ctl=list(ctl), prefix=[], depth=2))
    four = ["point", "circuit", "fil", "point"]
    for ctl in itertools.product([True, False], repeat=4):
        for a in OPS:
            cases.append(dict(kinds=four, ctl=list(ctl), prefix=[a], depth=2 if q else 3))
    return CheckDef(
        "C03",
        [Section("control histories", cases, run, "all machines of <=2 slots over %d kinds, %d of 3 and 1 of 4 slots, all control subsets, all operation sequences up to depth 1-%d" % (len(SLOTS), len(trip), 2 if q else 3))],
        ["coils of a machine have distinct labels; control vectors have the documented length"],
    )
