"""C05: total flux and field are plasma plus present coils, on and off grid.

Enumerated: every sequence of solves, current changes and control operations
up to a depth, on grids of unequal sizes.  Model: plasma flux of the last
solve + loops at their present currents (independent quadrature).
"""

import functools
import numpy as np
from mc.core import CheckDef, Section, tree
from mc import ref, coils
from mc.eqs import StubProfile, bump

GRIDS = {
    "17x33": dict(Rmin=0.3, Rmax=1.9, Zmin=-1.0, Zmax=1.0, nx=17, ny=33),
    "33x17": dict(Rmin=0.5, Rmax=2.1, Zmin=-1.2, Zmax=0.8, nx=33, ny=17),
    "17x17": dict(Rmin=0.3, Rmax=1.9, Zmin=-0.9, Zmax=0.9, nx=17, ny=17),
}

# off-grid observation points
OR = np.array([0.83, 1.21, 1.57, 1.02])
OZ = np.array([0.22, -0.41, 0.53, -0.07])

# X-point forming pair, vertical field pair, single
POSITIONS = [(1.0, -1.35, 1), (1.0, 1.35, 2), (2.6, 0.9, 1), (2.6, -0.9, 1), (0.12, 0.05, 1)]


@functools.lru_cache(None)
def unit(i, grid):
    r, z, n = POSITIONS[i]
    if grid is None:
        return n * np.array(ref.loop(r, z, OR, OZ))
    g = GRIDS[grid]
    R, Z = np.meshgrid(np.linspace(g["Rmin"], g["Rmax"], g["nx"]), np.linspace(g["Zmin"], g["Zmax"], g["ny"]), indexing="ij")
    return n * ref.loop(r, z, R, Z)[0]


class Obj:
    def __init__(self, grid):
        from freegs.machine import Machine, Circuit
        from freegs.coil import Coil
        from freegs.equilibrium import Equilibrium

        c = [Coil(r, z, turns=n) for r, z, n in POSITIONS]
        self.m = Machine(
            [
                ("X", Circuit([("XL", c[0], 1.0), ("XU", c[1], 0.45)], current=1.2e5)),
                ("V1", c[2]),
                ("V2", c[3]),
                ("S", c[4]),
            ]
        )
        c[2].current = -4e4
        c[3].current = -4e4
        c[4].current = 0.0
        c[4].control = False
        self.I = {"X": 1.2e5, "V1": -4e4, "V2": -4e4, "S": 0.0}
        self.ctl = {"X": True, "V1": True, "V2": True, "S": False}
        self.grid = grid
        self.eq = Equilibrium(self.m, **GRIDS[grid])
        self.prof = StubProfile()
        self.solved = False
        self.J = None

    def coil_currents(self):
        return [self.I["X"], 0.45 * self.I["X"], self.I["V1"], self.I["V2"], self.I["S"]]


def apply(o, op):
    eq = o.eq
    o.solved = False
    if op.startswith("solve"):
        R0, Z0, I = {"solveA": (1.1, 0.0, 3e5), "solveB": (1.2, -0.15, 1.5e5), "solve-": (1.1, 0.05, -3e5)}[op]
        J = bump(eq.R, eq.Z, R0, Z0, 0.4, I)
        eq.solve(o.prof, Jtor=J)
        o.J = J
        o.solved = True
    elif op == "nudge":
        # nearly the same current again
        o.J = o.J * 1.0004 if o.J is not None else bump(eq.R, eq.Z, 1.1, 0.0, 0.4, 3e5)
        eq.solve(o.prof, Jtor=o.J)
        o.solved = True
    elif op == "X~":
        o.m["X"].current += 7.0
        o.I["X"] += 7.0
    elif op == "profile":
        p = StubProfile(f0=-3.0, df=0.1, J=lambda R, Z: bump(R, Z, 1.05, 0.1, 0.35, 2e5))
        eq.solve(p)
        o.prof = p
        o.J = p.J(eq.R, eq.Z)
        o.solved = True
    elif op == "X+":
        o.m["X"].current += 3e4
        o.I["X"] += 3e4
    elif op == "V1=0":
        o.m["V1"].current = 0.0
        o.I["V1"] = 0.0
    elif op == "S=":
        o.m["S"].current = 2e5
        o.I["S"] = 2e5
    elif op == "adjust":
        d = [1e4, -2e3, 1e3]
        on = [k for k in ("X", "V1", "V2", "S") if o.ctl[k]]
        o.m.controlAdjust(np.array(d[: len(on)]))
        for k, v in zip(on, d):
            o.I[k] += v
    elif op == "control":
        # hand over V2 to manual
        o.ctl["V2"] = not o.ctl["V2"]
        o.m["V2"].control = o.ctl["V2"]
    elif op == "read":
        eq.psi()
        eq.psiRZ(1.0, 0.1)
        eq.Bpol(OR, OZ)


OPS = ["solveA", "solveB", "solve-", "nudge", "profile", "X+", "X~", "V1=0", "S=", "adjust", "control", "read"]


def node(ck):
    last = {}

    def check(o, seq):
        from freegs import critical

        eq = o.eq
        what = "after " + (" ".join(seq) or "construction")
        ck.step()
        ck.state(o.grid, o.I, o.ctl, [s for s in seq if s.startswith(("solve", "profile", "nudge"))])
        plasma = np.array(eq.plasma_psi)
        Is = o.coil_currents()
        want = plasma + sum(I * unit(i, o.grid) for i, I in enumerate(Is))
        scale = np.abs(plasma).max() + sum(abs(I) * unit(i, o.grid).max() for i, I in enumerate(Is))
        psi = eq.psi()
        ck.close(psi, want, "flux on the grid " + what, atol=1e-8 * scale)
        ck.close(eq.psiRZ(eq.R, eq.Z), want, "point-wise flux at grid points " + what, atol=1e-8 * scale)
        r, z = float(eq.R[3, 5]), float(eq.Z[3, 5])
        ck.close(eq.psiRZ(r, z), want[3, 5], "flux at one grid point " + what, atol=1e-8 * scale)
        # plasma current consistent with the last solve
        if seq and any(s.startswith(("solve", "profile", "nudge")) for s in seq):
            g = GRIDS[o.grid]
            dA = (g["Rmax"] - g["Rmin"]) / (g["nx"] - 1) * (g["Zmax"] - g["Zmin"]) / (g["ny"] - 1)
            ck.close(eq.plasmaCurrent(), o.J.sum() * dA, "plasma current " + what, rtol=0.05)
        # field components are derivatives of the flux, off grid
        h = 1e-3
        pr = (eq.psiRZ(OR + h, OZ) - eq.psiRZ(OR - h, OZ)) / (2 * h)
        pz = (eq.psiRZ(OR, OZ + h) - eq.psiRZ(OR, OZ - h)) / (2 * h)
        br, bz = eq.Br(OR, OZ), eq.Bz(OR, OZ)
        B = np.hypot(pr, pz).max() + sum(abs(I) * np.abs(unit(i, None)[1:]).max() for i, I in enumerate(Is))
        ck.close(br, -pz / OR, "Br = -(1/R) dpsi/dZ " + what, atol=2e-3 * B)
        ck.close(bz, pr / OR, "Bz = (1/R) dpsi/dR " + what, atol=2e-3 * B)
        cbr = sum(I * unit(i, None)[1] for i, I in enumerate(Is))
        cbz = sum(I * unit(i, None)[2] for i, I in enumerate(Is))
        ck.close(br - eq.plasmaBr(OR, OZ), cbr, "coil part of Br " + what, atol=2e-3 * B)
        ck.close(bz - eq.plasmaBz(OR, OZ), cbz, "coil part of Bz " + what, atol=2e-3 * B)
        ck.close(eq.Bpol(OR, OZ), np.hypot(br, bz), "Bpol " + what, rtol=1e-9)
        ck.close(eq.Br(1.21, -0.41), br[1], "Br at one point " + what, atol=1e-9 * B)
        if o.solved:
            axis = eq.magneticAxis()
            opt, xpt = critical.find_critical(eq.R, eq.Z, psi)
            if eq.psi_bndry is not None:
                # flux interpolation between grid points limits the accuracy
                ck.close(eq.psiNRZ(axis[0], axis[1]), 0.0, "normalised flux on axis " + what, atol=2e-2)
                ck.close(eq.psiN(), (want - axis[2]) / (eq.psi_bndry - axis[2]), "normalised flux on the grid " + what, rtol=1e-6, atol=1e-6)
                ck.close(eq.psiNRZ(eq.R, eq.Z), eq.psiN(), "normalised flux point-wise " + what, rtol=1e-6, atol=1e-6)
                ck.expect(len(xpt) > 0, "boundary flux without an X-point " + what)
                ck.close(eq.psiNRZ(xpt[0][0], xpt[0][1]), 1.0, "normalised flux at the X-point " + what, atol=2e-2)
                # toroidal field: profile inside the core, vacuum outside
                x = eq.psiN()
                f = np.where(eq.mask > 0.5, o.prof.fpol(x), o.prof.fvac())
                ck.close(eq.Btor(eq.R, eq.Z), f / eq.R, "toroidal field " + what, rtol=1e-6, atol=1e-6)
                ck.close(eq.Btot(eq.R, eq.Z) ** 2, eq.Bpol(eq.R, eq.Z) ** 2 + (f / eq.R) ** 2, "total field " + what, rtol=1e-6, atol=1e-6)
                ck.outcome("diverted", np.sign(eq.psi_bndry - axis[2]))
            else:
                ck.outcome("no X-point")
            last["plasma"] = None
        # nothing of the above has changed the state
        ck.close(eq.psi(), psi, "flux after evaluation " + what, rtol=1e-12)
        ck.close(eq.plasma_psi, plasma, "plasma flux after evaluation " + what, rtol=0)
        cur = o.m.getCurrents()
        ck.close([cur[k] for k in sorted(cur)], [o.I[k] for k in sorted(o.I)], "currents after evaluation " + what, rtol=1e-12)

    return check


def run(case, ck):
    tree(OPS, case["depth"], case["prefix"], lambda: Obj(case["grid"]), apply, node(ck))
    ck.trace(len(OPS) ** (case["depth"] - len(case["prefix"])))


def run_keep(case, ck):
    """Coil operations never change the plasma part, a solve changes only it"""
    o = Obj(case["grid"])
    apply(o, "solveA")
    for op in case["ops"]:
        plasma = np.array(o.eq.plasma_psi)
        Ip = o.eq.plasmaCurrent()
        cur = dict(o.m.getCurrents())
        apply(o, op)
        ck.step()
        if op in ("X+", "X~", "V1=0", "S=", "adjust", "control", "read"):
            ck.close(o.eq.plasma_psi, plasma, "plasma flux after " + op, rtol=0)
            ck.same(o.eq.plasmaCurrent(), Ip, "plasma current after " + op)
        else:
            ck.same(dict(o.m.getCurrents()), cur, "coil currents after " + op)
            ck.close(o.eq.plasma_psi[[0, 0, -1, -1], [0, -1, 0, -1]], boundary_flux(o, [(0, 0), (0, -1), (-1, 0), (-1, -1)]), "corner flux of the plasma after " + op, rtol=0.05)
    ck.state(case)
    ck.trace()
    ck.outcome(*case["ops"])


def run_limited(case, ck):
    """Current and flux of plasmas which extend beyond the limiter"""
    from mc import eqs

    eq = eqs.scripted(case["conf"], case["grid"], sign=case["sign"], wall=eqs.rectangle(case["r0"], 1.7, -0.9, 0.85), limited=case["limited"])
    J = eqs.bump(eq.R, eq.Z, 1.0, 0.0, 0.42, case["sign"] * 3e5, e=1.45)
    I = J.sum() * eq.dR * eq.dZ
    for n in range(3):
        w = "%s, solve %d: " % (case, n)
        ck.close(eq.plasmaCurrent(), I, w + "plasma current", rtol=0.02)
        ck.close(eq.psi(), eq.plasma_psi + eq.tokamak.psi(eq.R, eq.Z), w + "flux", rtol=0, atol=1e-9 * np.abs(eq.psi()).max())
        ck.close(eq.psiRZ(eq.R, eq.Z), eq.psi(), w + "point-wise flux", rtol=0, atol=1e-8 * np.abs(eq.psi()).max())
        ck.close(eq.Jtor, J, w + "current density", rtol=0, atol=1e-9 * np.abs(J).max())
        eq.solve(eq._profiles, Jtor=J.copy())
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("limited", bool(eq.is_limited))


def boundary_flux(o, pts):
    g = o.eq
    out = []
    w = o.J * g.dR * g.dZ
    nz = np.argwhere(np.abs(w) > 0)
    for i, j in pts:
        tot = 0.0
        for a, b in nz:
            tot += w[a, b] * ref.loop(g.R[a, b], g.Z[a, b], g.R[i, j], g.Z[i, j], n=128)[0]
        out.append(tot)
    return out


def check(tier):
    import itertools

    q = tier == "quick"
    cases = []
    for grid in GRIDS:
        cases.append(dict(grid=grid, prefix=[], depth=1))
        d = 3 if grid == "17x33" else 2
        if not q:
            d += 1
        for a in OPS:
            if d >= 3:
                cases += [dict(grid=grid, prefix=[a, b], depth=d) for b in OPS]
                cases.append(dict(grid=grid, prefix=[a], depth=1))
            else:
                cases.append(dict(grid=grid, prefix=[a], depth=d))
    keep = [dict(grid=g, ops=list(t)) for g in GRIDS for t in itertools.product(OPS, repeat=2)]
    return CheckDef(
        "C05",
        [
            Section("histories", cases, run, "all sequences of %d operations up to depth %s" % (len(OPS), "3 (17x33), 2 (others)" if q else "4 (17x33), 3 (others)")),
            Section("limited", [dict(conf=c, grid=g, sign=s, r0=r, limited=l) for c in ("lower", "upper", "none") for g in ("33x33", "33x65") for s in (1.0, -1.0) for r in (0.45, 0.7, 0.8) for l in (False, True)], run_limited, "configurations x grids x signs x limiters, three solves each"),
            Section("separation", keep, run_keep, "all pairs of operations after a solve"),
        ],
        ["coils do not move (moving needs new precomputed responses, as documented)", "normalised flux is that of the last solve"],
    )
