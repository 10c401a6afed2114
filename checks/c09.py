"""C09: magnetic axis and X-points are found, classified and ordered.

Enumerated: a lattice of fields psi = s (k u^2/2 + Q(v)) + offset, where Q' has
1 to 4 roots at lattice places (every alternation of O- and X-points along a
line), rotated by several angles and placed at several fractions of a grid cell
on grids of several shapes, both signs, with constant offsets.
Model: the roots themselves; hidden X-points are those for which the flux on
the line from the primary O-point overshoots the X-point or undershoots the axis.
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section, Inconclusive

GRIDS = {
    "33x33": (0.2, 1.8, -1.0, 1.0, 33, 33),
    "33x65": (0.2, 1.8, -1.0, 1.0, 33, 65),
    "65x33": (0.6, 2.6, 0.5, 2.1, 65, 33),
    "40x52": (0.3, 2.1, -1.3, 0.8, 40, 52),
    # a small device
    "small": (0.5, 0.66, -0.1, 0.1, 65, 65),
}
SCALE = {"small": 0.1}
ROOTS = [
    (0.0,),
    (0.0, 0.45),
    (-0.4, 0.05),
    (-0.5, 0.0, 0.4),
    (-0.35, 0.1, 0.5),
    (-0.6, -0.2, 0.2, 0.6),
    (-0.6, -0.25, 0.15, 0.5),
    (-0.6, -0.12, 0.12, 0.55),
    (-0.35, -0.1, 0.3, 0.65),
    (-0.65, -0.3, 0.0, 0.3, 0.65),
    (-0.7, -0.25, 0.1, 0.35, 0.65),
]
ANGLES = [0.0, 0.35, np.pi / 4, np.pi / 2, 2.0, np.pi, 4.0]
OFFSETS = [(0.0, 0.0), (0.5, 0.5), (0.5, 0.0), (0.0, 0.5), (0.25, 0.4), (0.9, 0.1)]


class Field:
    def __init__(self, case):
        g = GRIDS[case["grid"]]
        self.R, self.Z = np.meshgrid(np.linspace(g[0], g[1], g[4]), np.linspace(g[2], g[3], g[5]), indexing="ij")
        self.dR, self.dZ = (g[1] - g[0]) / (g[4] - 1), (g[3] - g[2]) / (g[5] - 1)
        self.mid = (0.5 * (g[0] + g[1]), 0.5 * (g[2] + g[3]))
        i, j = g[4] // 2, g[5] // 2
        sx, sz = case["shift"]
        self.c = (self.R[i, 0] + (case["frac"][0] + sx) * self.dR, self.Z[0, j] + (case["frac"][1] + sz) * self.dZ)
        roots = case["roots"]
        self.scale = SCALE.get(case["grid"], 1.0)
        self.P = np.poly1d(np.poly(roots)) * (case["lead"] * {1: 2.0, 2: 5.0, 3: 12.0, 4: 30.0, 5: 70.0}[len(roots)])
        self.Q = np.polyint(self.P)
        self.k, self.a, self.s, self.off = case["k"], case["angle"], case["sign"], case["offset"]
        self.roots = roots
        dP = self.P.deriv()
        self.pts = []
        for n, v in enumerate(roots):
            r = self.c[0] - np.sin(self.a) * v * self.scale
            z = self.c[1] + np.cos(self.a) * v * self.scale
            kind = "O" if dP(v) * self.k > 0 else "X"
            self.pts.append(dict(r=r, z=z, kind=kind, psi=float(self.psi(r, z)), n=n, lam=(abs(self.k), abs(dP(v)))))

    def psi(self, R, Z):
        x, z = R - self.c[0], Z - self.c[1]
        u = np.cos(self.a) * x + np.sin(self.a) * z
        v = -np.sin(self.a) * x + np.cos(self.a) * z
        return self.s * (0.5 * self.k * u * u + self.scale ** 2 * self.Q(v / self.scale)) + self.off

    def resolved(self):
        """Within the searchable grid, and clearly separated saddles/extrema"""
        R, Z = self.R, self.Z
        for p in self.pts:
            if not (R[4, 0] <= p["r"] <= R[-5, 0] and Z[0, 4] <= p["z"] <= Z[0, -5]):
                return False
            lo, hi = min(p["lam"]), max(p["lam"])
            if hi > 4 * lo or lo < 0.8:
                return False
        return True


def match(ck, got, want, what, f):
    """Every wanted point exactly once, nothing else"""
    left = list(want)
    for g in got:
        hit = [w for w in left if np.hypot(w["r"] - g[0], w["z"] - g[1]) < 4e-3 * max(1.0, w["r"] / min(w["lam"]))]
        ck.expect(len(hit) == 1, lambda: "%s: reported (%.5f, %.5f), true points %s" % (what, g[0], g[1], [(round(w["r"], 5), round(w["z"], 5)) for w in left]))
        ck.close(g[2], hit[0]["psi"], what + ": flux", rtol=0, atol=1e-3 + 1e-4 * abs(f.off))
        left.remove(hit[0])
    ck.expect(not left, lambda: "%s: missed %s" % (what, [(round(w["r"], 5), round(w["z"], 5)) for w in left]))


def order_ok(ck, keys, what):
    for a, b in zip(keys, keys[1:]):
        ck.expect(a <= b + 2e-3, "%s: order %s" % (what, keys))


def judge(f, psi, ck):
    from freegs.critical import find_critical

    p0 = psi.copy()
    opts = [p for p in f.pts if p["kind"] == "O"]
    xpts = [p for p in f.pts if p["kind"] == "X"]
    dist = lambda r, z: np.hypot(r - f.mid[0], z - f.mid[1])
    o1, x1 = find_critical(f.R, f.Z, psi, discard_xpoints=False)
    o2, x2 = find_critical(f.R, f.Z, psi)
    ck.step(2)
    ck.expect(np.array_equal(psi, p0), "flux is not modified")
    match(ck, o1, opts, "O-points", f)
    match(ck, x1, xpts, "X-points (all)", f)
    match(ck, o2, opts, "O-points, hidden X-points discarded", f)
    if not opts:
        match(ck, x2, xpts, "X-points without an O-point", f)
        return None
    order_ok(ck, [dist(o[0], o[1]) for o in o1], "O-points by distance from the domain centre")
    prim = [p for p in opts if np.hypot(p["r"] - o2[0][0], p["z"] - o2[0][1]) < 0.02][0]
    visible = []
    for p in xpts:
        # flux along the line of sight, from 0 (axis) to 1 (X-point)
        t = np.linspace(0, 1, 1001)
        y = f.psi(prim["r"] + t * (p["r"] - prim["r"]), prim["z"] + t * (p["z"] - prim["z"]))
        y = (y - prim["psi"]) / (p["psi"] - prim["psi"])
        over, under = y.max() - 1, -y.min()
        if 2e-4 < over / y.max() < 5e-3 or (under > 0 and under < 5e-3 and y.min() < -1e-6):
            raise Inconclusive("borderline visibility")
        if over < 2e-4 and under < 1e-6:
            visible.append(p)
    hidden = [p for p in xpts if p not in visible]
    match(ck, x2, visible, "X-points seen from the primary O-point", f)
    order_ok(ck, [abs(x[2] - prim["psi"]) for x in x1], "X-points by flux")
    order_ok(ck, [abs(x[2] - prim["psi"]) for x in x2], "X-points by flux")
    return len(opts), len(visible), len(hidden)


def run(case, ck):
    f = Field(case)
    if not f.resolved():
        raise Inconclusive("not resolved by this grid")
    res = judge(f, f.psi(f.R, f.Z), ck)
    ck.state(case)
    ck.trace()
    ck.outcome(*(res if res else ("no O-point", len(f.pts))))


def run_signs(case, ck):
    """Same points for every sign, offset and mirror image"""
    from freegs.critical import find_critical

    f = Field(case)
    if not f.resolved():
        raise Inconclusive("not resolved by this grid")
    if not any(p["kind"] == "O" for p in f.pts):
        raise Inconclusive("no O-point")
    psi = f.psi(f.R, f.Z)
    base = find_critical(f.R, f.Z, psi)

    def same(name, got, zf=lambda z: z, pf=lambda p: p, ties=False):
        ck.step()
        for n, (g, b) in enumerate(zip(got, base)):
            ck.same(len(g), len(b), "%s: number of %s-points" % (name, "OX"[n]))
            key = lambda t: (round(t[0], 2), round(t[1], 2))
            b2 = [(p[0], zf(p[1]), pf(p[2])) for p in b]
            d = [abs(p[2] - b[0][2]) if n else np.hypot(p[0] - f.mid[0], p[1] - f.mid[1]) for p in b]
            if len(d) > 1 and min(abs(u - v) for u, v in itertools.combinations(d, 2)) < 5e-3:
                b2, g = sorted(b2, key=key), sorted(g, key=key)
            ck.close(np.array(g), np.array(b2), "%s: %s-points" % (name, "OX"[n]), rtol=0, atol=5e-3)

    same("negative flux", find_critical(f.R, f.Z, -psi), pf=lambda p: -p)
    same("offset", find_critical(f.R, f.Z, psi + 7.0), pf=lambda p: p + 7.0)
    same("mirror image", find_critical(f.R, -f.Z[:, ::-1], psi[:, ::-1].copy()), zf=lambda z: -z)
    same("raised", find_critical(f.R, f.Z + 3.0, psi), zf=lambda z: z + 3.0)
    same("again", find_critical(f.R, f.Z, psi))
    # the same array objects, changed in place between calls
    R, Z, P = f.R.copy(), f.Z.copy(), psi.copy()
    same("own arrays", find_critical(R, Z, P))
    P *= -1.0
    same("negated in place", find_critical(R, Z, P), pf=lambda p: -p)
    P *= -1.0
    Z += 3.0
    same("raised in place", find_critical(R, Z, P), zf=lambda z: z + 3.0)
    P += 7.0
    Z -= 3.0
    same("offset in place", find_critical(R, Z, P), pf=lambda p: p + 7.0)
    ck.close(P, psi + 7.0, "flux is not modified", rtol=0, atol=1e-12 * np.abs(psi + 7).max())
    ck.close(Z, f.Z, "heights are not modified", rtol=0, atol=1e-12)
    ck.expect(np.array_equal(R, f.R), "radii are not modified")
    ck.state(case)
    ck.trace(9)
    ck.outcome(len(base[0]), len(base[1]))


def run_solved(case, ck):
    """Equilibria made of real current loops: field vanishes, nothing missed"""
    from freegs.critical import find_critical
    from mc.eqs import diverted

    eq, prof, con = diverted(case["nx"], case["ny"], sign=case["sign"])
    psi = eq.psi()
    opt, xpt = find_critical(eq.R, eq.Z, psi)
    ck.step()
    ck.expect(len(opt) >= 1 and len(xpt) >= 2, "one axis and two X-points")
    ax = eq.magneticAxis()
    ck.close(list(ax), list(opt[0]), "magnetic axis is the primary O-point", rtol=1e-9)
    for r, z, p in opt[:1] + xpt[:2]:
        ck.expect(float(eq.Bpol(r, z)) < 3e-3, "field at (%g,%g) is %g" % (r, z, eq.Bpol(r, z)))
        ck.close(eq.psiRZ(r, z), p, "flux at (%g,%g)" % (r, z), rtol=0, atol=2e-3 * np.ptp(psi))
    zs = sorted(x[1] for x in xpt[:2])
    ck.close(zs, [-0.6, 0.8], "X-points as constrained", rtol=0, atol=0.03)
    ck.expect(abs(xpt[0][2] - opt[0][2]) <= abs(xpt[1][2] - opt[0][2]), "X-points in order of flux")
    ck.state(case)
    ck.trace()
    ck.outcome("solved")


def check(tier):
    q = tier == "quick"
    grids = ["33x33", "65x33", "40x52", "small"] if q else list(GRIDS)
    shifts = [(0, 0)] if q else [(0, 0), (-3, 2), (2, -4)]
    ks = (1.5, -3.0) if q else (1.5, -1.5, 3.0, -3.0)
    cases = []
    for n, (r, l, k, a, fr, g, sh) in enumerate(itertools.product(ROOTS, (1, -1), ks, ANGLES, OFFSETS, grids, shifts)):
        if q and g == "small" and (k > 0 or list(fr) not in ([0.5, 0.5], [0.25, 0.4])):
            continue
        sg, off = [(1, 0.0), (-1, 0.0), (1, -3.0), (-1, 40.0)][n % 4]
        cases.append(dict(roots=list(r), lead=l, k=k, angle=a, frac=list(fr), grid=g, shift=list(sh), sign=sg, offset=off))
    cases.sort(key=lambda c: len(c["roots"]))
    sym = [dict(c, sign=1, offset=0.0) for i, c in enumerate(cases) if c["frac"] in ([0.0, 0.0], [0.25, 0.4]) and c["shift"] == [0, 0]]
    solved = [dict(nx=a, ny=b, sign=s) for a, b in [(33, 33), (33, 65), (65, 33)] + ([] if q else [(65, 65)]) for s in (1.0, -1.0)]
    return CheckDef(
        "C09",
        [
            Section("fields", cases, run, "roots x kinds x angles x cell fractions x grids %s" % grids),
            Section("symmetry", sym, run_signs, "sign, offset, mirror, translation of every field"),
            Section("solved", solved, run_solved, "diverted equilibria, both current signs"),
        ],
        ["critical points at least four cells from the edge, curvature ratio at most 4", "locations to the 1 mT search tolerance"],
    )
