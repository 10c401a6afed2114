"""C07: the boundary condition is the flux of the plasma current in free space.

Enumerated: every unit current on the interior of small grids x every boundary
point; by linearity (checked) every current distribution on them.
Oracle: the loop flux by independent quadrature times the current which the
equilibrium itself reports for the same distribution.
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section
from mc import ref
from mc.eqs import StubProfile, bump

DOMAINS = {"std": (0.2, 1.8, -1.0, 1.0), "up": (0.5, 1.3, 0.4, 2.4), "wide": (0.3, 3.3, -0.6, 0.7)}


def make(shape, dom, bfun=None, **kw):
    from freegs.equilibrium import Equilibrium

    d = DOMAINS[dom]
    if bfun is not None:
        kw["boundary"] = bfun
    return Equilibrium(Rmin=d[0], Rmax=d[1], Zmin=d[2], Zmax=d[3], nx=shape[0], ny=shape[1], **kw)


def edge_points(shape):
    nx, ny = shape
    pts = [(i, j) for i in range(nx) for j in range(ny) if i in (0, nx - 1) or j in (0, ny - 1)]
    return pts


def run_unit(case, ck):
    from freegs.boundary import freeBoundary

    shape, dom = tuple(case["shape"]), case["dom"]
    eq = make(shape, dom, freeBoundary, order=2 if min(shape) < 6 else 4)
    pts = edge_points(shape)
    Re = np.array([eq.R[p] for p in pts])
    Ze = np.array([eq.Z[p] for p in pts])
    tot, totJ = 0.0, np.zeros(shape)
    k = 0
    for i in case["rows"]:
        for j in range(1, shape[1] - 1):
            J = np.zeros(shape)
            J[i, j] = 1e4
            psi = 5.0 + np.arange(J.size, dtype=float).reshape(shape)
            p0, J0 = psi.copy(), J.copy()
            freeBoundary(eq, J, psi)
            ck.step()
            ck.state(shape, dom, i, j)
            ck.expect(np.array_equal(J, J0), "current density is not modified")
            ck.expect(np.array_equal(psi[1:-1, 1:-1], p0[1:-1, 1:-1]), "interior flux is not modified")
            # the total current as the equilibrium reports it
            eq.solve(StubProfile(), Jtor=J0.copy())
            I = eq.plasmaCurrent()
            ck.expect(0.1 < I / (1e4 * eq.dR * eq.dZ) < 3.0, "reported current of one cell: %g" % I)
            want = I * ref.loop(eq.R[i, j], eq.Z[i, j], Re, Ze, n=512)[0]
            got = np.array([psi[p] for p in pts])
            ck.close(got, want, "boundary flux of current at (%d,%d)" % (i, j), rtol=1e-5)
            ck.close(np.array([eq.plasma_psi[p] for p in pts]), want, "boundary flux after solve, current at (%d,%d)" % (i, j), rtol=1e-5)
            w = ((k * 5) % 7) - 3
            k += 1
            tot = tot + w * got
            totJ += w * J0
    psi = np.zeros(shape)
    freeBoundary(eq, totJ, psi)
    ck.close([psi[p] for p in pts], tot, "superposition", rtol=0, atol=1e-9 * np.abs(tot).max())
    ck.trace(k)
    ck.outcome(shape, dom)


def run_fixed(case, ck):
    from freegs.boundary import fixedBoundary

    shape, dom = tuple(case["shape"]), case["dom"]
    eq = make(shape, dom, fixedBoundary, order=2)
    for i, j in itertools.product(range(shape[0]), range(shape[1])):
        J = np.zeros(shape)
        J[i, j] = 3.0
        psi = 1.0 + np.arange(J.size, dtype=float).reshape(shape)
        p0 = psi.copy()
        fixedBoundary(eq, J, psi)
        ck.step()
        ck.state(shape, dom, i, j)
        want = p0.copy()
        for p in edge_points(shape):
            want[p] = 0.0
        ck.expect(np.array_equal(psi, want), "fixed boundary: zero edge, interior unchanged")
        ck.expect(J[i, j] == 3.0 and J.sum() == 3.0, "current density not modified")
    ck.trace()
    ck.outcome(shape)


def run_hagenow(case, ck):
    from freegs.boundary import freeBoundaryHagenow

    shape, dom, order = tuple(case["shape"]), case["dom"], case["order"]
    eq = make(shape, dom, freeBoundaryHagenow, order=order)
    if case.get("levels"):
        eq.setSolverVcycle(nlevels=case["levels"], ncycle=60, niter=10, direct=True)
    d = DOMAINS[dom]
    R0 = d[0] + case["at"][0] * (d[1] - d[0])
    Z0 = d[2] + case["at"][1] * (d[3] - d[2])
    a = 0.27 * min(d[1] - d[0], d[3] - d[2])
    J = case["sign"] * bump(eq.R, eq.Z, R0, Z0, a, 1e5, e=1.0)
    J0 = J.copy()
    psi = -7.0 + np.zeros(shape) if not case.get("levels") else np.zeros(shape)
    p0 = psi.copy()
    freeBoundaryHagenow(eq, J, psi)
    ck.step()
    ck.expect(np.array_equal(J, J0), "current density not modified")
    ck.expect(np.array_equal(psi[1:-1, 1:-1], p0[1:-1, 1:-1]), "interior flux not modified")
    nz = np.argwhere(J0 != 0)
    pts = edge_points(shape)
    Re = np.array([eq.R[p] for p in pts])
    Ze = np.array([eq.Z[p] for p in pts])
    want = sum(J0[i, j] * eq.dR * eq.dZ * ref.loop(eq.R[i, j], eq.Z[i, j], Re, Ze, n=128)[0] for i, j in nz)
    got = np.array([psi[p] for p in pts])
    # observation points lie 1 cm outside, and the integral is discretised
    ck.close(got, want, "von Hagenow boundary flux", rtol=0.0, atol=0.04 * np.abs(want).max())
    eq.solve(StubProfile(), Jtor=J0)
    ck.close(np.array([eq.plasma_psi[p] for p in pts]), want, "after solve", rtol=0.0, atol=0.04 * np.abs(want).max())
    ck.state(case)
    ck.trace()
    ck.outcome(shape, dom, case["sign"])


def run_smooth(case, ck):
    """Smooth currents: absolute flux level, with coils present or not"""
    from freegs.boundary import freeBoundary
    from freegs.machine import Machine
    from freegs.coil import Coil

    shape, dom = tuple(case["shape"]), case["dom"]
    tok = Machine([("c", Coil(2.0, 0.3, current=case["coil"]))])
    eq = make(shape, dom, freeBoundary, tokamak=tok)
    d = DOMAINS[dom]
    R0 = d[0] + case["at"][0] * (d[1] - d[0])
    Z0 = d[2] + case["at"][1] * (d[3] - d[2])
    a = 0.35 * min(d[1] - d[0], d[3] - d[2])
    J = bump(eq.R, eq.Z, R0, Z0, a, -2e5, e=1.0)
    for rep in range(2):
        eq.solve(StubProfile(), Jtor=J)
        nz = np.argwhere(J != 0)
        pts = edge_points(shape)
        Re = np.array([eq.R[p] for p in pts])
        Ze = np.array([eq.Z[p] for p in pts])
        want = sum(J[i, j] * eq.dR * eq.dZ * ref.loop(eq.R[i, j], eq.Z[i, j], Re, Ze, n=128)[0] for i, j in nz)
        got = np.array([eq.plasma_psi[p] for p in pts])
        ck.close(got, want, "flux of the plasma alone on the boundary, solve %d" % rep, rtol=0.12)
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome(shape, dom, case["coil"])


# Domains which share some of their edges, and grids which share sizes
SEQ_DOMS = [(0.4, 1.6, -0.8, 0.8), (0.4, 1.6, -0.8, 1.3), (0.4, 1.6, -1.4, 0.8), (0.4, 2.1, -0.8, 0.8), (0.6, 1.6, -0.8, 0.8), (0.5, 1.7, -0.7, 0.9)]
SEQ_SHAPES = [(9, 9), (9, 17), (17, 9)]
_SEQ_REF = {}


def seq_ref(dom, shape, eq, J):
    """Flux of the current on the edge, by the oracle (cached)"""
    key = (dom, shape)
    if key not in _SEQ_REF:
        nz = np.argwhere(J != 0)
        pts = edge_points(shape)
        Re = np.array([eq.R[p] for p in pts])
        Ze = np.array([eq.Z[p] for p in pts])
        _SEQ_REF[key] = [ref.loop(eq.R[i, j], eq.Z[i, j], Re, Ze, n=256)[0] for i, j in nz], nz, pts
    return _SEQ_REF[key]


def run_sequence(case, ck):
    """Equilibria on different domains used in one process, in every order"""
    from freegs.equilibrium import Equilibrium
    from freegs.boundary import freeBoundary

    eqs = []
    for d, s in case["seq"]:
        dom, shape = SEQ_DOMS[d], SEQ_SHAPES[s]
        mk = lambda: Equilibrium(Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=shape[0], ny=shape[1])
        eqs.append((dom, shape, mk() if case["mode"] == "before" else mk))
    for rep in range(2):
        for dom, shape, eq in eqs:
            if case["mode"] != "before":
                eq = eq()
            J = np.zeros(shape)
            for k, (i, j) in enumerate([(2, 3), (5, 2), (shape[0] // 2, shape[1] // 2)]):
                J[i, j] = (1e4, -3e4, 2e4)[k] * (1 + rep)
            loops, nz, pts = seq_ref(dom, shape, eq, J)
            # the weight which the equilibrium itself gives to one cell
            w = []
            for i, j in nz:
                U = np.zeros(shape)
                U[i, j] = 1.0
                eq.solve(StubProfile(), Jtor=U)
                w.append(eq.plasmaCurrent())
            psi = np.zeros(shape)
            freeBoundary(eq, J.copy(), psi)
            want = sum(J[i, j] * w[k] * loops[k] for k, (i, j) in enumerate(nz))
            tol = 1e-5 * sum(abs(J[i, j] * w[k]) * loops[k].max() for k, (i, j) in enumerate(nz))
            ck.step()
            ck.close([psi[p] for p in pts], want, "boundary flux on %s %s in the sequence %s" % (dom, shape, case["seq"]), rtol=0, atol=tol)
            eq.solve(StubProfile(), Jtor=J.copy())
            ck.close([eq.plasma_psi[p] for p in pts], want, "boundary flux after solve on %s %s in the sequence %s" % (dom, shape, case["seq"]), rtol=0, atol=tol)
    ck.state(case)
    ck.trace()
    ck.outcome(case["mode"], len(case["seq"]))


def check(tier):
    q = tier == "quick"
    shapes = [(5, 9), (9, 5), (9, 9)] + ([] if q else [(9, 17), (17, 9), (17, 17)])
    units = [dict(shape=list(s), dom=d, rows=[i]) for s in shapes for d in DOMAINS for i in range(1, s[0] - 1)]
    fixed = [dict(shape=list(s), dom="std") for s in [(5, 5), (5, 9), (9, 5)]]
    at = [(0.5, 0.5), (0.45, 0.6), (0.6, 0.42)]
    hs = [(33, 33), (33, 65), (65, 33)] if q else [(33, 33), (33, 65), (65, 33), (65, 65)]
    hag = [dict(shape=list(s), dom=d, at=list(a), order=o, sign=g) for s in hs for d in ("std", "up") for a in at for o in (2, 4) for g in (1, -1)]
    hag += [dict(shape=[33, 33], dom="std", at=[0.5, 0.5], order=2, sign=g, levels=n) for g in (1, -1) for n in (2, 3)]
    smooth = [dict(shape=list(s), dom=d, at=list(a), coil=c) for s in [(17, 17), (17, 33), (33, 17)] for d in DOMAINS for a in at for c in (0.0, 1e5)]
    items = list(itertools.product(range(len(SEQ_DOMS)), range(len(SEQ_SHAPES))))
    if q:
        seqs = [[a, b] for a in items for b in items if a != b and (a[1] == b[1] == 0 or a[0] == b[0])]
        modes = ["before"]
    else:
        seqs = [[a, b] for a in items for b in items if a != b] + [[a, b, c] for a, b, c in itertools.permutations([(d, 0) for d in range(len(SEQ_DOMS))], 3)]
        modes = ["before", "each"]
    seqs = [dict(seq=[list(x) for x in sq], mode=m) for sq in seqs for m in modes]
    return CheckDef(
        "C07",
        [
            Section("sequences of domains", seqs, run_sequence, "ordered sequences of domains sharing edges and of grids sharing sizes, in one process, each used twice"),
            Section("unit currents", units, run_unit, "every interior point as source and every boundary point on grids %s" % (shapes,)),
            Section("fixed", fixed, run_fixed, "every point"),
            Section("smooth", smooth, run_smooth, "positions x grids x coil currents, solved twice"),
            Section("von Hagenow", hag, run_hagenow, "positions x grids x order x sign"),
        ],
        ["the integral over the domain uses the same quadrature as the reported plasma current", "von Hagenow: 4% of the largest value, from evaluating 1 cm outside"],
    )
