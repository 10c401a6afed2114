"""C22: changing resolution or domain preserves the equilibrium and its settings.

The real refine, coarsen and newDomain are applied in every order up to a depth
to real equilibria over all settings; every intermediate equilibrium is compared
with its predecessor and with an equilibrium built directly on the requested
grid with the same settings.
"""

import copy
import itertools
import numpy as np
from mc import eqs
from mc.core import CheckDef, Section, Violation, quiet

X = np.linspace(0.0, 1.0, 11)
MAXN = 65
DOM = {
    "sq": dict(Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=33, ny=33),
    "tall": dict(Rmin=0.2, Rmax=1.8, Zmin=-1.1, Zmax=0.9, nx=17, ny=65),
    "wide": dict(Rmin=0.15, Rmax=1.9, Zmin=-1.0, Zmax=1.0, nx=65, ny=33),
    "even": dict(Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=32, ny=33),
}


class Boxed(eqs.StubProfile):
    pass


def heldBoundary(eq, Jtor, psi):
    """A user's boundary condition: the flux on the edges stays as it is"""


def boundary_function(bnd):
    from freegs.boundary import freeBoundary, fixedBoundary

    return {"free": freeBoundary, "fixed": fixedBoundary, "held": heldBoundary}[bnd]


def build(conf):
    """(equilibrium, profiles) of a configuration; deterministic"""
    import freegs
    from freegs import jtor
    from freegs.boundary import freeBoundary

    prof, dom, order, bnd, lim, sign = conf
    bfun = boundary_function(bnd)
    kw = dict(DOM[dom], order=order, boundary=bfun, check_limited=lim)
    if prof == "stub":
        from freegs.machine import Machine
        from freegs.coil import Coil

        c = [Coil(1.0, 1.35), Coil(1.0, -1.35), Coil(2.4, 0.8), Coil(2.4, -0.8)]
        for k, f in zip(c, (0.5, 1.0, -0.3, -0.3)):
            k.current = sign * f * 3e5
        wall = eqs.rectangle(0.4, 1.5, -0.75, 0.8)
        tok = Machine(list(zip(("XU", "XL", "VU", "VL"), c)), wall)
        eq = freegs.Equilibrium(tok, **kw)
        J = lambda R, Z: eqs.bump(R, Z, 1.0, 0.0, 0.42, sign * 3e5, e=1.45)
        p = Boxed(f0=sign * 2.0, J=J)
        with quiet():
            if bnd == "held":
                # flux of the plasma on the edges from a free boundary solve
                k2 = dict(kw, boundary=freeBoundary)
                if dom != "even":
                    e2 = freegs.Equilibrium(tok, **k2)
                    e2.solve(p, Jtor=J(e2.R, e2.Z))
                    eq = freegs.Equilibrium(tok, psi=e2.plasma_psi.copy(), **kw)
            if dom == "even":
                # the free boundary needs 2^n + 1 points; interpolate
                e2 = freegs.Equilibrium(tok, **dict(kw, nx=33, boundary=freeBoundary if bnd == "held" else bfun))
                e2.solve(p, Jtor=J(e2.R, e2.Z))
                psi = e2.psi_func(eq.R, eq.Z, grid=False)
                eq = freegs.Equilibrium(tok, psi=psi, current=e2.plasmaCurrent(), **kw)
                eq._profiles = p
            else:
                eq.solve(p, Jtor=J(eq.R, eq.Z))
    else:
        tok = freegs.machine.TestTokamak()
        tok.wall = eqs.rectangle(0.3, 1.7, -0.8, 0.9) if lim else None
        eq = freegs.Equilibrium(tok, **kw)
        if prof in ("paxis", "spline"):
            p = jtor.ConstrainPaxisIp(eq, 1e3, sign * 2e5, sign * 2.0)
        elif prof == "betap":
            p = jtor.ConstrainBetapIp(eq, 0.4, sign * 2e5, sign * 2.0)
        con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.8)])
        with quiet():
            freegs.solve(eq, p, con, check_limited=lim)
            if prof == "spline":
                # the same plasma with fixed profile functions
                q = copy.copy(p)
                p = jtor.ProfilesPprimeFfprime(q.pprime, q.ffprime, sign * 2.0)
                eq.solve(p)
    eq.control = "controller of %s" % (conf,)
    return eq, p


def ops(eq, bnd):
    """Enabled operations: name -> (function, requested grid, overlap tolerance)"""
    from freegs.equilibrium import refine, coarsen, newDomain

    nx, ny = eq.R.shape
    a, b, c, d = eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax
    pow2 = lambda n: n > 2 and ((n - 1) & (n - 2)) == 0
    out = {}
    if 2 * nx - 1 <= MAXN and 2 * ny - 1 <= 2 * MAXN:
        out["refine"] = (lambda: refine(eq), (2 * nx - 1, 2 * ny - 1, a, b, c, d))
    out["refine_x"] = (lambda: refine(eq, nx=49), (49, 2 * ny - 1, a, b, c, d))
    out["refine_y"] = (lambda: refine(eq, ny=49), (2 * nx - 1, 49, a, b, c, d))
    out["refine_xy"] = (lambda: refine(eq, nx=65, ny=33), (65, 33, a, b, c, d))
    if nx % 2 and ny % 2:
        if nx >= 17 and ny >= 17:
            out["coarsen"] = (lambda: coarsen(eq), ((nx + 1) // 2, (ny + 1) // 2, a, b, c, d))
    else:
        out["coarsen"] = (lambda: coarsen(eq), (nx, ny, a, b, c, d))
    if pow2(nx) and pow2(ny) and nx >= 17 and ny >= 17 and nx * ny <= 65 * 65:
        out["domain"] = (lambda: newDomain(eq), (nx, ny, a, b, c, d))
        out["domain_R"] = (lambda: newDomain(eq, Rmin=a + 0.04, Rmax=b - 0.03), (nx, ny, a + 0.04, b - 0.03, c, d))
        out["domain_Z"] = (lambda: newDomain(eq, Zmin=c + 0.03, Zmax=d - 0.02), (nx, ny, a, b, c + 0.03, d - 0.02))
        if bnd == "free":
            out["domain_grow"] = (lambda: newDomain(eq, Rmax=b + 0.1, Zmax=d + 0.02), (nx, ny, a, b + 0.1, c, d + 0.02))
        out["domain_nx"] = (lambda: newDomain(eq, nx=33, ny=65), (33, 65, a, b, c, d))
        out["domain_ny"] = (lambda: newDomain(eq, ny=33), (nx, 33, a, b, c, d))
    return out


def snapshot(eq):
    prof = {}
    for n in ("pprime", "ffprime", "pressure", "fpol"):
        prof[n] = np.array(getattr(eq, n)(X), dtype=float)
    return dict(
        psi=eq.plasma_psi.copy(), R=eq.R.copy(), Z=eq.Z.copy(), total=np.array(eq.psi()),
        box=(eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax), axis=eq.psi_axis, bndry=eq.psi_bndry,
        J=None if eq.Jtor is None else eq.Jtor.copy(), I=eq.plasmaCurrent(), fvac=eq.fvac(),
        lim=(bool(eq.is_limited), bool(eq.check_limited), eq.order),
        mask=None if eq.mask is None else np.array(eq.mask), coils=dict(eq.tokamak.getCurrents()),
        field=np.array([eq.Br(1.1, 0.2), eq.Bz(0.9, 0.1)]), prof=prof,
    )


def unchanged(ck, before, eq, what):
    after = snapshot(eq)
    for k in before:
        if k == "prof":
            for n in before[k]:
                ck.close(after[k][n], before[k][n], "%s of the original %s" % (n, what), rtol=1e-12)
        elif isinstance(before[k], np.ndarray):
            ck.same(after[k].shape, before[k].shape, "shape of %s of the original %s" % (k, what))
            ck.close(after[k], before[k], "%s of the original %s" % (k, what), rtol=1e-12, atol=1e-15)
        else:
            ck.same(after[k], before[k], "%s of the original %s" % (k, what))


TOL = {"refine": 1.5e-3, "coarsen": 1e-12, "domain": 0.03}


def judge(ck, conf, hist, op, old, new, grid):
    import freegs

    prof, dom, order, bnd, lim, sign = conf
    w = "%s of %s" % ("+".join(hist + [op]), conf)
    kind = op.split("_")[0]
    nx, ny, a, b, c, d = grid
    ck.same(new.R.shape, (nx, ny), "grid after " + w)
    ck.same((new.nx, new.ny), (nx, ny), "nx, ny after " + w)
    ck.close([new.Rmin, new.Rmax, new.Zmin, new.Zmax], [a, b, c, d], "domain after " + w, rtol=1e-12)
    ck.close(new.R, np.linspace(a, b, nx)[:, None] * np.ones((1, ny)), "R after " + w, rtol=1e-12)
    ck.close(new.Z, np.linspace(c, d, ny)[None, :] * np.ones((nx, 1)), "Z after " + w, rtol=1e-12, atol=1e-12)
    ck.same(new.plasma_psi.shape, (nx, ny), "plasma flux after " + w)
    ck.expect(new is not old and new.tokamak is old.tokamak, "machine after " + w)
    ck.same(new.check_limited, lim, "limiter setting after " + w)
    ck.same(new.order, order, "order after " + w)
    ck.expect(getattr(new, "control", None) is old.control, "control lost by " + w)

    # --- plasma flux
    scale = np.abs(old.plasma_psi).max()
    with quiet():
        inside = (new.R >= old.Rmin - 1e-12) & (new.R <= old.Rmax + 1e-12)
        inside &= (new.Z >= old.Zmin - 1e-12) & (new.Z <= old.Zmax + 1e-12)
        from scipy.interpolate import RectBivariateSpline

        f = RectBivariateSpline(old.R[:, 0], old.Z[0, :], old.plasma_psi)
        want = f(new.R, new.Z, grid=False)
    tol = TOL[kind]
    err = np.abs(new.plasma_psi - want)[inside].max() / scale
    # zero flux on the edges of another domain is another equilibrium
    moved = bnd == "fixed" and op in ("domain_R", "domain_Z")
    ck.expect(moved or err <= tol, "plasma flux changed by %g of its maximum in %s (tolerance %g)" % (err, w, tol))
    if bnd != "free" and kind == "domain":
        e = np.zeros((nx, ny), bool)
        e[0] = e[-1] = True
        e[:, 0] = e[:, -1] = True
        edge = want[e] if bnd == "held" else 0.0
        ck.close(new.plasma_psi[e], edge, "plasma flux on the edges after " + w, atol=1.5e-3 * scale)
    # total flux at points in the plasma, on and off the grid
    for R, Z in () if moved else ((1.0, 0.0), (0.93, 0.21), (1.13, -0.17)):
        ck.close(new.psiRZ(R, Z), old.psiRZ(R, Z), "flux in the plasma after " + w, atol=(0.03 if min(nx, ny) < 17 else max(tol, 5e-3)) * scale)
    ck.close(new.psi(), new.plasma_psi + new.tokamak.psi(new.R, new.Z), "total flux after " + w, rtol=1e-9, atol=1e-12)

    # --- profiles and current
    exact = kind != "domain"
    for n in ("pprime", "ffprime", "pressure", "fpol"):
        g, h = np.asarray(getattr(new, n)(X), float), np.asarray(getattr(old, n)(X), float)
        loose = 1e-9 if exact or prof == "stub" else 0.1
        if n == "pressure" and prof == "spline":
            loose = 0.1
        ck.close(g, h, "%s after %s" % (n, w), rtol=1e-9, atol=loose * np.abs(h).max())
    ck.close(new.fvac(), old.fvac(), "vacuum f after " + w, rtol=1e-12)
    ck.close(
        new.plasmaCurrent(), old.plasmaCurrent(), "plasma current after " + w,
        rtol=1e-12 if exact else (1e-9 if prof in ("paxis", "betap") else 0.03),
    )
    if dom != "even" or bnd != "free":
        # same settings: behaves as an equilibrium built on that grid
        pow2 = lambda n: n > 2 and ((n - 1) & (n - 2)) == 0
        if nx * ny <= 65 * 65 and pow2(nx) and pow2(ny) and (order == 2 or min(nx, ny) > 5):
            bfun = boundary_function(bnd)
            fresh = freegs.Equilibrium(
                new.tokamak, Rmin=a, Rmax=b, Zmin=c, Zmax=d, nx=nx, ny=ny, order=order,
                boundary=bfun, check_limited=lim, psi=new.plasma_psi.copy(),
            )
            if fresh.psi_bndry is not None:
                ck.close(new.psi_bndry, fresh.psi_bndry, "boundary flux after " + w, rtol=1e-9)
                ck.close(new.psi_axis, fresh.psi_axis, "axis flux after " + w, rtol=1e-9)
                ck.same(bool(new.is_limited), bool(fresh.is_limited), "limited after " + w)
            J = eqs.bump(new.R, new.Z, 1.05, 0.05, 0.35, sign * 2e5, e=1.3)
            twin = copy.deepcopy(new)
            stub = eqs.StubProfile(f0=2.0)
            with quiet():
                twin.solve(stub, Jtor=J.copy())
                fresh.solve(stub, Jtor=J.copy())
            ck.close(
                twin.plasma_psi, fresh.plasma_psi,
                "the linear solve (order, boundary condition) after " + w, rtol=1e-9, atol=1e-12,
            )


def explore(ck, conf, depth, names=None):
    eq0, p0 = build(conf)
    ck.state("start", conf)

    def rec(eq, hist, chain):
        for name, (fn, grid) in ops(eq, conf[3]).items():
            if names is not None and len(hist) and name not in names:
                continue
            if grid[0] > 2 * MAXN or grid[1] > 2 * MAXN:
                continue
            if name == "coarsen" and conf[0] != "stub" and min(grid[0], grid[1]) < 17:
                continue
            before = [snapshot(e) for e in chain]
            with quiet():
                try:
                    new = fn()
                except Exception as e:
                    raise Violation("%s of %s raised %r" % ("+".join(hist + [name]), conf, e))
            ck.step()
            ck.state(conf, hist + [name])
            judge(ck, conf, hist, name, eq, new, grid)
            for e, s in zip(chain, before):
                unchanged(ck, s, e, "by " + "+".join(hist + [name]) + " of %s" % (conf,))
            ck.outcome(conf[0], conf[3], name.split("_")[0], bool(new.is_limited))
            if len(hist) + 1 < depth:
                rec(new, hist + [name], chain + [new])
            else:
                ck.trace()
                resolve(ck, conf, hist + [name], new, chain, p0, grid)

    rec(eq0, [], [eq0])


def resolve(ck, conf, hist, new, chain, p0, grid):
    """The result can be solved again, and that leaves the originals alone"""
    nx, ny = grid[:2]
    pow2 = lambda n: n > 2 and ((n - 1) & (n - 2)) == 0
    if not (pow2(nx) and pow2(ny)) or nx * ny > 65 * 65:
        return
    prof = conf[0]
    w = "%s of %s" % ("+".join(hist), conf)
    before = [snapshot(e) for e in chain]
    psi = new.plasma_psi.copy()
    twin = copy.deepcopy(new)
    with quiet():
        try:
            new.solve(new._profiles)
            twin.solve(copy.deepcopy(p0))
        except Exception as e:
            raise Violation("solving after %s raised %r" % (w, e))
    scale = np.abs(psi).max()
    ck.expect(
        np.abs(new.plasma_psi - psi).max() <= 0.1 * scale,
        lambda: "solving again after %s changed the flux by %g" % (w, np.abs(new.plasma_psi - psi).max() / scale),
    )
    ck.close(new.plasma_psi, twin.plasma_psi, "flux with its own and with the original profiles, after " + w, atol=1e-6 * scale)
    if prof in ("paxis", "betap"):
        ck.close(new.plasmaCurrent(), conf[5] * 2e5, "plasma current when solved after " + w, rtol=1e-9)
    for e, s in zip(chain, before):
        unchanged(ck, s, e, "by solving the result of " + w)


def check(tier):
    quick = tier == "quick"
    stub = [("stub", d, o, b, l, s)
            for o in (2, 4) for b in ("free", "fixed", "held") for l in (False, True)
            for d in ("sq", "tall", "wide", "even") for s in (1.0, -1.0)]
    if quick:
        stub = [c for c in stub if c[5] > 0 or (c[2] == 2 and c[1] == "sq")]
    real = [(p, d, o, "free", l, s)
            for p in ("paxis", "betap", "spline") for o in (2, 4) for l in (False, True)
            for d in ("sq", "wide") for s in (1.0, -1.0)]
    # the iteration for this one, limited, does not converge
    real = [c for c in real if not (c[0] == "betap" and c[4])]
    if quick:
        real = [c for c in real if (c[1] == "sq" and c[2] == 2) or (c[1] == "wide" and c[2] == 4 and c[5] > 0 and not c[4])]
    d2 = ("refine", "coarsen", "domain_R", "domain_Z", "domain_nx", "refine_xy")
    seqs = stub + real
    if quick:
        seqs = [c for c in stub if c[1] in ("sq", "tall") and c[5] > 0 and (c[2] == 4) == (c[1] == "tall")]
        seqs += [c for c in real if c[1] == "sq" and c[5] > 0 and not c[4]]
    return CheckDef(
        "C22",
        [
            Section("one operation", [list(c) for c in stub + real],
                    lambda c, ck: explore(ck, tuple(c), 1),
                    "all operations (refine by default/in R/in Z/both, coarsen, new domain same/R/Z/grown/resolution) on all settings: order 2/4, free/fixed/user's boundary, limiter on/off, both signs, 4 grids, 4 kinds of profiles", timeout=600),
            Section("sequences", [list(c) for c in seqs],
                    lambda c, ck: explore(ck, tuple(c), 2 if quick else 3, d2),
                    "all sequences of operations, depth 2 (thorough 3), where a following operation is one of " + ", ".join(d2), timeout=1500),
        ],
        ["new domains contain the plasma and its current"],
    )
