"""C31: machines, walls, circuits and coils are equal exactly if they stand for the same thing."""

import copy
import itertools
import numpy as np
from mc.core import CheckDef, Section
from mc import coils as mc_coils

KINDS = list(mc_coils.KINDS)


# --- coils: a variant is (kind, name, value) with the contents as key
def base(kind):
    return dict(kind=kind, current=1e3, turns=mc_coils.KINDS[kind]["turns"], control=True, dR=0.0, dZ=0.0)


def variants(kind):
    b = base(kind)
    out = [b, dict(b, current=-1e3), dict(b, current=0.0), dict(b, current=1e3 + 1e-3), dict(b, control=False)]
    if b["turns"] is not None:
        out.append(dict(b, turns=b["turns"] + 3))
    if kind not in ("solenoid", "precalc"):
        out += [dict(b, dR=0.25), dict(b, dZ=-0.25)]
    out += [dict(b, special=s) for s in SPECIAL.get(kind, [])]
    return out


SPECIAL = {
    "rect": ["vertex", "points", "wider", "triangle"],
    "L3": ["points", "narrower", "vertex"],
    "fil": ["nudged", "fewer", "swapped"],
    "filshape": ["nudged", "fewer", "wider"],
    "filauto": ["nfils", "wider"],
    "multi": ["mirror", "list"],
    "multilist": ["nudged", "fewer", "mirror", "last"],
    "mirror+": ["polarity", "plain", "list"],
    "mirror-": ["polarity", "plain", "nudged", "first"],
    "precalc": ["psi", "br", "bz", "wider", "triangle"],
    "solenoid": ["Rs", "Zsmin", "Zsmax", "Ns"],
}


def build(v):
    from freegs.shaped_coil import ShapedCoil
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil
    from freegs.pre_calc_coil import PreCalcCoil
    from freegs.machine import Solenoid

    s = v.get("special")
    if s is None:
        return mc_coils.build(v)
    k = v["kind"]
    kw = dict(current=v["current"], turns=v["turns"], control=v["control"])
    rs, zs = list(mc_coils.FILR), list(mc_coils.FILZ)
    wide = [(r, 1.2 * z) for r, z in mc_coils.RECT]
    if k in ("rect", "L3"):
        sh, n = list(mc_coils.KINDS[k]["shape"]), mc_coils.KINDS[k]["n"]
        if s == "vertex":
            sh.append((0.99, -0.2))
        elif s == "points":
            n = 3 if n != 3 else 6
        elif s == "triangle":
            sh = sh[:3]
        else:
            sh = [(r, z * (1.2 if s == "wider" else 0.8)) for r, z in sh]
        return ShapedCoil(sh, npoints=n, **kw)
    if k in ("fil", "filshape", "filauto"):
        sh = wide if s == "wider" else mc_coils.RECT
        if k == "filauto":
            return FilamentCoil(shape=sh, Nfils=55 if s == "nfils" else 30, **kw)
        if s == "nudged":
            rs[2] += 0.02
        elif s == "fewer":
            rs, zs = rs[:3], zs[:3]
        elif s == "swapped":
            rs = rs[1:] + rs[:1]
        if k == "fil":
            # the outline is kept
            sh = [(0.96, -0.04), (0.96, 0.05), (1.05, 0.05), (1.05, -0.04)]
        return FilamentCoil(rs, zs, shape=sh, **kw)
    if k in ("multi", "multilist", "mirror+", "mirror-"):
        mirror, pol = k.startswith("mirror"), [1.0, -0.5] if k == "mirror-" else [1.0, 1.0]
        if k in ("multi", "mirror+"):
            rs, zs = [1.0], [0.0 if k == "multi" else 0.6]
        elif k == "mirror-":
            zs = [z + 0.5 for z in zs]
        if s == "mirror":
            mirror = True
        elif s == "plain":
            mirror = False
        elif s == "polarity":
            pol = [1.0, -1.0]
        elif s == "nudged":
            # the same middle
            rs[2] += 0.02
            rs[0] -= 0.02
        elif s == "first":
            zs[0] += 0.03
        elif s == "last":
            zs[-1] += 0.03
        elif s == "fewer":
            rs, zs = rs[:3], zs[:3]
        elif s == "list":
            r0, z0 = rs[0], zs[0]
            rs, zs = [r0 - 0.1, r0 + 0.1], [z0, z0]
        c = MultiCoil(rs, zs, current=v["current"], control=v["control"], mirror=mirror, polarity=pol)
        c.turns = v["turns"]
        return c
    if k == "precalc":
        g = [np.array(x) for x in mc_coils._precalc_maps()]
        if s in ("psi", "br", "bz"):
            g[("psi", "br", "bz").index(s)] *= 1.05
        sh = wide if s == "wider" else mc_coils.RECT[:3] if s == "triangle" else mc_coils.RECT
        Rg, Zg = np.meshgrid(*mc_coils.PGRID)
        return PreCalcCoil(sh, Rg, Zg, g[1], g[2], g[0], **kw)
    a = dict(Rs=0.4, Zsmin=-0.5, Zsmax=0.7, Ns=4)
    a[s] += 2 if s == "Ns" else 0.1
    return Solenoid(a["Rs"], a["Zsmin"], a["Zsmax"], a["Ns"], current=v["current"], control=v["control"])


def key(v):
    k, s = v["kind"], v.get("special")
    t = tuple(sorted((a, b) for a, b in v.items() if a not in ("kind", "special")))
    return (k, s, t)


def decide(ck, a, b, want, what):
    for x, y in ((a, b), (b, a)):
        ck.same((bool(x == y), bool(x != y)), (want, not want), what)


def strangers():
    from freegs.machine import Wall, Machine, FluxLoopSensor

    return [None, 3.0, "coil", [1.0], Wall([1.0, 2.0, 2.0], [0.0, 0.0, 1.0]), Machine([]), object()]


def run_coil(case, ck):
    v = case["variant"]
    c = build(v)
    decide(ck, c, build(v), True, "the same coil built twice")
    decide(ck, c, copy.deepcopy(c), True, "a copy")
    decide(ck, c, c, True, "itself")
    for k in KINDS:
        for w in variants(k):
            if key(w) != key(v):
                decide(ck, c, build(w), False, "%s and %s" % (v, w))
    for o in strangers():
        decide(ck, c, o, False, "%s and %r" % (v["kind"], o))
    if hasattr(type(c), "from_numpy_array") and v["kind"] != "precalc":
        d = type(c).from_numpy_array(np.array(c.to_numpy_array(), dtype=c.dtype))
        decide(ck, c, d, True, "written and read")
    ck.step(len(KINDS))
    ck.state(v)
    ck.trace()
    ck.outcome("coil", v["kind"], v.get("special"))


# --- histories on one of two equal coils
OPS = [("current", 2.5e3), ("current", 1e3), ("control", False), ("control", True), ("turns", 7), ("turns", None), ("R", 0.25), ("R", 0.0), ("Z", -0.25), ("Z", 0.0)]


def run_history(case, ck):
    k = case["kind"]
    m = base(k)
    # dyadic positions, so that moving there and back is exact
    a, b = mc_coils.build(m), None
    b = copy.deepcopy(a) if case["copy"] else mc_coils.build(m)
    now = dict(m)
    r0, z0 = (float(b.R), float(b.Z)) if mc_coils.KINDS[k]["move"] else (0, 0)
    for op, x in case["ops"]:
        if op == "current":
            b.current = x
            now["current"] = x
        elif op == "control":
            b.control = x
            now["control"] = x
        elif op == "turns":
            b.turns = m["turns"] if x is None else x
            now["turns"] = b.turns
        elif op == "R":
            b.R = r0 + x
            now["dR"] = x
        else:
            b.Z = z0 + x
            now["dZ"] = x
        decide(ck, a, b, now == m, "changed %s, %s" % (op, x))
        ck.step()
    ck.state(k, case["ops"])
    ck.trace()
    ck.outcome("history", k, now == m)


# --- circuits
def circuit(v):
    from freegs.machine import Circuit

    coils = [(l, build(dict(base(k), **(ch or {}))), mult) for l, k, mult, ch in v["coils"]]
    c = Circuit(coils, current=v["current"], control=v["control"])
    return c


def circuits():
    b = dict(coils=[("a", "point", 1.0, None), ("b", "rect", -0.5, None)], current=2e3, control=True)
    a0, b0 = b["coils"]
    out = [b, dict(b, current=-2e3), dict(b, control=False)]
    out += [dict(b, coils=x) for x in (
        [a0], [b0], [("x",) + a0[1:], b0], [a0, ("b", "rect", 0.5, None)], [a0, ("b", "L3", -0.5, None)],
        [a0, ("b", "rect", -0.5, {"dZ": 0.25})], [("a", "point", 1.0, {"dR": 0.25}), b0], [("a", "point", 1.0, {"turns": 5}), b0],
        [a0, b0, ("c", "mirror+", 1.0, None)], [a0, b0, ("c", "mirror+", 1.0, {"turns": 5})], [a0, ("b", "solenoid", -0.5, None)],
        [("a", "point", 1.0, None), ("b", "point", -0.5, None)], [("a", "rect", 1.0, None), ("b", "point", -0.5, None)],
    )]
    return out


def run_circuit(case, ck):
    vs = circuits()
    v = vs[case["i"]]
    c = circuit(v)
    decide(ck, c, circuit(v), True, "the same circuit built twice")
    decide(ck, c, copy.deepcopy(c), True, "a copy")
    for i, w in enumerate(vs):
        if i != case["i"]:
            decide(ck, c, circuit(w), False, "%s and %s" % (v, w))
    for o in strangers() + [build(base("point")), build(base("multilist")), build(base("solenoid"))]:
        decide(ck, c, o, False, "a circuit and %r" % o)
    # changing a coil inside, and back
    d = copy.deepcopy(c)
    d.coils[0][1].current = c.coils[0][1].current + 5.0
    decide(ck, c, d, False, "current of a coil in a circuit changed")
    d.coils[0][1].current = c.coils[0][1].current
    decide(ck, c, d, True, "changed back")
    d.current = 17.0
    decide(ck, c, d, False, "current of a circuit changed")
    d.current = v["current"]
    decide(ck, c, d, True, "set back")
    ck.step(len(vs))
    ck.state(v)
    ck.trace()
    ck.outcome("circuit", len(v["coils"]))


# --- walls and machines
WALLS = {
    "none": None,
    "box": ([0.5, 0.5, 1.5, 1.5], [-0.7, 0.7, 0.7, -0.7]),
    "taller": ([0.5, 0.5, 1.5, 1.5], [-0.7, 0.8, 0.8, -0.7]),
    "wider": ([0.5, 0.5, 1.6, 1.6], [-0.7, 0.7, 0.7, -0.7]),
    "corner": ([0.5, 0.5, 1.5, 1.4], [-0.7, 0.7, 0.7, -0.7]),
    "last": ([0.5, 0.5, 1.5, 1.5], [-0.7, 0.7, 0.7, -0.6]),
    "first": ([0.55, 0.5, 1.5, 1.5], [-0.7, 0.7, 0.7, -0.7]),
    "triangle": ([0.5, 0.5, 1.5], [-0.7, 0.7, 0.7]),
    "five": ([0.5, 0.5, 1.0, 1.5, 1.5], [-0.7, 0.7, 0.9, 0.7, -0.7]),
    "point": ([0.5], [-0.7]),
}


def wall(name):
    from freegs.machine import Wall

    return None if WALLS[name] is None else Wall(list(WALLS[name][0]), list(WALLS[name][1]))


def run_wall(case, ck):
    n = case["wall"]
    w = wall(n)
    decide(ck, w, wall(n), True, "the same wall")
    decide(ck, w, copy.deepcopy(w), True, "a copy")
    from freegs.machine import Wall

    decide(ck, w, Wall(np.array(w.R), tuple(w.Z)), True, "a wall from arrays")
    for o in WALLS:
        if o != n:
            decide(ck, w, wall(o), False, "walls %s and %s" % (n, o))
    for o in strangers():
        if not isinstance(o, Wall):
            decide(ck, w, o, False, "a wall and %r" % o)
    d = copy.deepcopy(w)
    d.R[0] += 0.1
    decide(ck, w, d, False, "a point moved")
    ck.step(len(WALLS))
    ck.state(n)
    ck.trace()
    ck.outcome("wall", n)


PARTS = {
    "P": ("P1", dict(base("point"))),
    "S": ("S2", dict(base("rect"))),
    "M": ("M3", dict(base("mirror+"))),
    "F": ("F4", dict(base("fil"))),
    "N": ("N5", dict(base("solenoid"))),
    "C": ("C6", None),
}


def part(p, change=None):
    l, v = PARTS[p]
    if change == "label":
        l = l + "x"
        change = None
    if v is None:
        c = dict(circuits()[0])
        if change == "position":
            c["coils"] = circuits()[8]["coils"]
        elif change:
            c[change] = {"current": 5.0, "control": False}[change]
        return l, circuit(c)
    v = dict(v)
    if change == "position":
        v.update(dict(dR=0.25) if p != "N" else dict(special="Rs"))
    elif change:
        v[change] = {"current": 5.0, "control": False}[change]
    return l, build(v)


def machine(parts, w, order=None, change=None):
    from freegs.machine import Machine

    coils = [part(p, change[1] if change and change[0] == i else None) for i, p in enumerate(parts)]
    if order is not None:
        coils = [coils[i] for i in order]
    return Machine(coils, wall(w))


def run_machine(case, ck):
    parts, w = case["parts"], case["wall"]
    m = machine(parts, w)
    decide(ck, m, copy.deepcopy(m), True, "a copy")
    before = repr(m)
    for order in itertools.permutations(range(len(parts))):
        decide(ck, m, machine(parts, w, order), True, "coils in the order %s" % (order,))
        for i in range(len(parts)):
            for ch in ("label", "current", "control", "position"):
                if case["full"] or order in (tuple(range(len(parts))), tuple(reversed(range(len(parts))))):
                    decide(ck, m, machine(parts, w, order, (i, ch)), False, "%s of coil %d, order %s" % (ch, i, order))
            if case["full"] or order == tuple(range(len(parts))):
                o = [j for j in order if j != i]
                decide(ck, m, machine(parts, w, o), False, "without coil %d" % i)
    for o in WALLS:
        if o not in (w, "point"):
            decide(ck, m, machine(parts, o), False, "walls %s and %s" % (w, o))
    for p in PARTS:
        if p not in parts:
            decide(ck, m, machine(parts + p, w), False, "with %s" % p)
            for i in range(len(parts)):
                q = list(parts)
                q[i] = p
                decide(ck, m, machine("".join(q), w), False, "%s instead of %s" % (p, parts[i]))
    for o in [None, 1.0, "machine", wall("box"), object()] + ([m.coils[0][1]] if m.coils else []):
        decide(ck, m, o, False, "a machine and %r" % o)
    # change and change back
    d = copy.deepcopy(m)
    d.wall = wall("five")
    decide(ck, m, d, False, "another wall")
    d.wall = wall(w)
    decide(ck, m, d, True, "the old wall")
    for i, (l, c) in enumerate(d.coils):
        old = c.current
        c.current = old + 1.0
        decide(ck, m, d, False, "current of %s changed" % l)
        c.current = old
        decide(ck, m, d, True, "and changed back")
    ck.same(repr(m), before, "machine after comparing")
    ck.step(len(parts) + 1)
    ck.state(parts, w)
    ck.trace()
    ck.outcome("machine", len(parts), w)


def predefined():
    from freegs import machine as fm

    return [fm.EmptyTokamak, fm.TestTokamak, fm.TestTokamakLimited, fm.TestTokamakSensor, fm.DIIID, fm.MAST, fm.MAST_sym, fm.TCV, fm.MASTU_simple, fm.MASTU]


def run_predefined(case, ck):
    f = predefined()
    a = f[case["i"]]()
    decide(ck, a, f[case["i"]](), True, "%s twice" % f[case["i"]].__name__)
    # the test tokamaks differ in their sensors and walls
    for j, g in enumerate(f):
        if j != case["i"]:
            b = g()
            same = sorted(x for x, _ in a.coils) == sorted(x for x, _ in b.coils) and (a.wall is None) == (b.wall is None)
            if not same:
                decide(ck, a, b, False, "%s and %s" % (f[case["i"]].__name__, g.__name__))
    for l, c in a.coils:
        b = f[case["i"]]()
        b[l].current = 1.0
        decide(ck, a, b, False, "current of %s" % l)
        b = f[case["i"]]()
        b[l].control = not c.control
        decide(ck, a, b, False, "control of %s" % l)
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("predefined", case["i"])


def check(tier):
    q = tier == "quick"
    hist = []
    for k in KINDS:
        ops = [o for o in OPS if not (o[0] == "turns" and k == "solenoid") and not (o[0] in "RZ" and not mc_coils.KINDS[k]["move"])]
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            for s in itertools.product(ops, repeat=n):
                if n > 1 and any(a[0] == b[0] and a[1] == b[1] for a, b in zip(s, s[1:])):
                    continue
                if n == 3 and q and (s[0][0] != s[2][0]):
                    continue
                if n == 4 and len(set(a[0] for a in s)) > 2:
                    continue
                hist.append(dict(kind=k, ops=[list(o) for o in s], copy=n % 2 == 0))
    mach = []
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        for p in itertools.combinations("PSMFNC", n):
            for w in ("none", "box", "triangle"):
                if n >= 3 and q and w != "box":
                    continue
                mach.append(dict(parts="".join(p), wall=w, full=n <= 2 or (not q and n == 3)))
    return CheckDef(
        "C31",
        [
            Section("coils", [dict(variant=v) for k in KINDS for v in variants(k)], run_coil, "all variants of all coil kinds, each against all"),
            Section("histories", hist, run_history, "all operation sequences up to depth 3 (thorough 4) on one of two equal coils"),
            Section("circuits", [dict(i=i) for i in range(len(circuits()))], run_circuit, "all pairs of circuit variants"),
            Section("walls", [dict(wall=w) for w in WALLS if w != "none"], run_wall, "all pairs of walls"),
            Section("machines", mach, run_machine, "all machines of up to three (thorough four) components in all orders, against all single changes"),
            Section("predefined", [dict(i=i) for i in range(len(predefined()))], run_predefined, "all pairs of predefined machines"),
        ],
        ["areas given for point coils, sensors and the order of coils within a circuit are left open"],
    )
