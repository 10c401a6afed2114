"""C06: the linear solve satisfies the Grad-Shafranov equation and boundary data.

Enumerated: on every small grid shape, for both orders and several domains,
every unit source (one current per interior point) and every unit boundary
value; by linearity (itself checked) this covers every source and boundary on
these grids.  Also all monomials that the stencils represent exactly.
Oracle: difference weights derived here from the monomials they have to
reproduce, applied to the solution.
"""

import functools
import itertools
import numpy as np
from mc.core import CheckDef, Section
from mc import ref
from mc.eqs import StubProfile, bump

MU0 = ref.MU0
DOMAINS = {"std": (0.1, 2.0, -1.0, 1.0), "shift": (0.7, 1.5, 0.2, 2.6), "tiny": (0.02, 0.3, -0.4, 0.1)}


@functools.lru_cache(None)
def weights(offsets, deriv):
    """Finite difference weights for unit spacing on the given offsets"""
    o = np.array(offsets, dtype=float)
    n = len(o)
    V = np.vander(o, n, increasing=True).T
    rhs = np.zeros(n)
    rhs[deriv] = 1.0 if deriv == 1 else 2.0
    return np.linalg.solve(V, rhs)


def stencil(i, n, deriv, order):
    if order == 2:
        off = (-1, 0, 1)
    elif 2 <= i <= n - 3:
        off = (-2, -1, 0, 1, 2)
    elif i == 1:
        off = (-1, 0, 1, 2, 3, 4) if deriv == 2 else (-1, 0, 1, 2, 3)
    else:
        off = (1, 0, -1, -2, -3, -4) if deriv == 2 else (1, 0, -1, -2, -3)
    return off, weights(off, deriv)


@functools.lru_cache(None)
def matrices(n, h, order):
    D1, D2 = np.zeros((n, n)), np.zeros((n, n))
    for i in range(1, n - 1):
        off, w = stencil(i, n, 1, order)
        for o, v in zip(off, w):
            D1[i, i + o] += v / h
        off, w = stencil(i, n, 2, order)
        for o, v in zip(off, w):
            D2[i, i + o] += v / h**2
    return D1, D2


def delta_star(psi, dom, order):
    nx, ny = psi.shape
    R = np.linspace(dom[0], dom[1], nx)
    hR, hZ = (dom[1] - dom[0]) / (nx - 1), (dom[3] - dom[2]) / (ny - 1)
    D1, D2 = matrices(nx, hR, order)
    _, E2 = matrices(ny, hZ, order)
    return D2 @ psi - (D1 @ psi) / R[:, None] + psi @ E2.T


def make(shape, dom, order, boundary=None):
    from freegs.equilibrium import Equilibrium

    kw = {} if boundary is None else {"boundary": boundary}
    d = DOMAINS[dom]
    return Equilibrium(Rmin=d[0], Rmax=d[1], Zmin=d[2], Zmax=d[3], nx=shape[0], ny=shape[1], order=order, **kw)


def residual(ck, psi, rhs, dom, order, what):
    """A psi = rhs inside, psi = rhs on the edge"""
    d = DOMAINS[dom]
    psi, rhs = np.asarray(psi), np.asarray(rhs)
    L = delta_star(psi, d, order)
    h = min((d[1] - d[0]) / (psi.shape[0] - 1), (d[3] - d[2]) / (psi.shape[1] - 1))
    scale = np.abs(rhs[1:-1, 1:-1]).max() + 20 * np.abs(psi).max() / h**2
    ck.close(L[1:-1, 1:-1], rhs[1:-1, 1:-1], "Delta* psi at interior points, " + what, rtol=0, atol=1e-9 * scale)
    e = np.ones(psi.shape, bool)
    e[1:-1, 1:-1] = False
    ck.close(psi[e], rhs[e], "boundary values, " + what, rtol=1e-9, atol=1e-9 * (np.abs(rhs[e]).max() + np.abs(psi).max()))


def run_units(case, ck):
    """Unit right-hand sides through the solver interface"""
    shape, dom, order = tuple(case["shape"]), case["dom"], case["order"]
    eq = make(shape, dom, order)
    guess = np.zeros(shape)
    total = np.zeros(shape)
    totr = np.zeros(shape)
    k = 0
    for i in range(shape[0]):
        for j in range(shape[1]):
            rhs = np.zeros(shape)
            rhs[i, j] = 1.0
            keep = rhs.copy()
            psi = eq.callSolver(guess, rhs)
            ck.step()
            ck.state(shape, dom, order, i, j)
            ck.same(np.shape(psi), shape, "shape of the solution")
            ck.expect(np.array_equal(rhs, keep), "right-hand side is not modified")
            residual(ck, psi, rhs, dom, order, "unit source at (%d,%d)" % (i, j))
            k += 1
            w = ((k * 7) % 11) - 5
            total += w * psi
            totr += w * rhs
    psi = eq.callSolver(guess, totr)
    ck.close(psi, total, "linearity", rtol=0, atol=1e-8 * np.abs(total).max())
    # the direct solution does not depend on the starting guess
    psi2 = eq.callSolver(np.ones(shape) * 3.3, totr)
    ck.close(psi2, psi, "independence of the guess", rtol=0, atol=1e-9 * np.abs(psi).max())
    ck.trace(k)
    ck.outcome(shape, dom, order)


def run_poly(case, ck):
    shape, dom, order, p, q = tuple(case["shape"]), case["dom"], case["order"], case["p"], case["q"]
    eq = make(shape, dom, order)
    R, Z = eq.R, eq.Z
    exact = R**p * Z**q
    L = np.zeros(shape)
    if p >= 2:
        L = L + p * (p - 1) * R ** (p - 2) * Z**q
    if p >= 1:
        L = L - p * R ** (p - 2) * Z**q
    if q >= 2:
        L = L + R**p * q * (q - 1) * Z ** (q - 2)
    rhs = L.copy()
    e = np.ones(shape, bool)
    e[1:-1, 1:-1] = False
    rhs[e] = exact[e]
    psi = eq.callSolver(np.zeros(shape), rhs)
    ck.close(psi, exact, "R^%d Z^%d recovered" % (p, q), rtol=0, atol=1e-8 * np.abs(exact).max())
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome(order, p, q)


def run_solve(case, ck):
    """Equilibrium.solve: source -mu0 R J, boundary from the boundary function"""
    from freegs import boundary as B

    shape, dom, order, bname = tuple(case["shape"]), case["dom"], case["order"], case["boundary"]
    given = {}

    def custom(eq, Jtor, psi):
        # arbitrary boundary data
        k = np.arange(psi.size, dtype=float).reshape(psi.shape)
        v = np.sin(k + 1.0)
        for s in (np.s_[0, :], np.s_[-1, :], np.s_[:, 0], np.s_[:, -1]):
            psi[s] = v[s]
        given["psi"] = psi.copy()

    bfun = {"free": B.freeBoundary, "fixed": B.fixedBoundary, "custom": custom}[bname]
    eq = make(shape, dom, order, bfun)
    pts = case["points"]
    for (i, j) in pts:
        J = np.zeros(shape)
        J[i, j] = -2.5e5
        keep = J.copy()
        prof = StubProfile()
        eq.solve(prof, Jtor=J)
        ck.step()
        ck.state(shape, dom, order, bname, i, j)
        psi = np.array(eq.plasma_psi)
        rhs = -MU0 * eq.R * keep
        e = np.ones(shape, bool)
        e[1:-1, 1:-1] = False
        if bname == "fixed":
            bv = np.zeros(shape)
        elif bname == "custom":
            bv = given["psi"]
        else:
            bv = psi  # C07 decides the values
        rhs[e] = bv[e]
        residual(ck, psi, rhs, dom, order, "solve with current at (%d,%d), %s boundary" % (i, j, bname))
        ck.expect(np.array_equal(J, keep), "the current density given is not modified")
        ck.close(eq.Jtor, keep, "current density remembered", rtol=1e-12)
    # the same through the profile object, smooth and offset current
    d = DOMAINS[dom]
    R0, Z0 = d[0] + 0.55 * (d[1] - d[0]), d[2] + 0.45 * (d[3] - d[2])
    a = 0.38 * min(d[1] - d[0], d[3] - d[2])
    f = lambda R, Z: bump(R, Z, R0, Z0, a, 1e5, e=1.0)
    eq.solve(StubProfile(J=f))
    Jx = f(eq.R, eq.Z)
    rhs = -MU0 * eq.R * Jx
    e = np.ones(shape, bool)
    e[1:-1, 1:-1] = False
    rhs[e] = np.array(eq.plasma_psi)[e]
    residual(ck, eq.plasma_psi, rhs, dom, order, "solve with a profile, %s boundary" % bname)
    if min(shape) >= 17:
        ck.close(eq.plasmaCurrent(), 1e5, "plasma current of a smooth distribution", rtol=0.2)
    Ip = eq.plasmaCurrent()
    eq.solve(StubProfile(), Jtor=-3 * Jx)
    ck.close(eq.plasmaCurrent(), -3 * Ip, "plasma current is linear", rtol=1e-10)
    ck.close(eq.plasmaCurrent(), -3 * Jx.sum() * eq.dR * eq.dZ, "plasma current against the sum", rtol=0.25)
    ck.trace(len(pts))
    ck.outcome(shape, order, bname)


def run_current(case, ck):
    """The reported plasma current of polynomial distributions"""
    shape, dom, p, q = tuple(case["shape"]), case["dom"], case["p"], case["q"]
    eq = make(shape, dom, 2)
    d = DOMAINS[dom]
    J = eq.R**p * eq.Z**q
    eq.solve(StubProfile(), Jtor=J)
    I = (d[1] ** (p + 1) - d[0] ** (p + 1)) / (p + 1) * (d[3] ** (q + 1) - d[2] ** (q + 1)) / (q + 1)
    sc = (d[1] ** (p + 1) - d[0] ** (p + 1)) / (p + 1) * (abs(d[3]) ** (q + 1) + abs(d[2]) ** (q + 1)) / (q + 1)
    ck.close(eq.plasmaCurrent(), I, "integral of R^%d Z^%d" % (p, q), rtol=0, atol=1e-9 * sc)
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome(p, q)


def run_operator(case, ck):
    """The matrix-free operator and the sparse matrices are the same stencil"""
    from freegs.gradshafranov import GSElliptic, GSsparse, GSsparse4thOrder

    shape, dom = tuple(case["shape"]), case["dom"]
    d = DOMAINS[dom]
    dR, dZ = (d[1] - d[0]) / (shape[0] - 1), (d[3] - d[2]) / (shape[1] - 1)
    op = GSElliptic(d[0])
    A2 = GSsparse(*d)(*shape)
    A4 = GSsparse4thOrder(*d)(*shape) if min(shape) >= 6 else None
    for i in range(shape[0]):
        for j in range(shape[1]):
            f = np.zeros(shape)
            f[i, j] = 1.0
            want = delta_star(f, d, 2)
            want[0, :] = want[-1, :] = 0
            want[:, 0] = want[:, -1] = 0
            sc = 4 / dR**2 + 4 / dZ**2
            ck.close(op(f, dR, dZ), want, "operator on unit (%d,%d)" % (i, j), rtol=0, atol=1e-10 * sc)
            edge = i in (0, shape[0] - 1) or j in (0, shape[1] - 1)
            w2 = want.copy()
            if edge:
                w2[i, j] = 1.0
            ck.close((A2 @ f.reshape(-1)).reshape(shape), w2, "2nd order matrix, column (%d,%d)" % (i, j), rtol=0, atol=1e-10 * sc)
            if A4 is not None:
                w4 = delta_star(f, d, 4)
                w4[0, :] = w4[-1, :] = 0
                w4[:, 0] = w4[:, -1] = 0
                if edge:
                    w4[i, j] = 1.0
                ck.close((A4 @ f.reshape(-1)).reshape(shape), w4, "4th order matrix, column (%d,%d)" % (i, j), rtol=0, atol=1e-10 * sc)
            ck.step()
            ck.state(shape, dom, i, j)
    ck.close(np.unique(op.diag(dR, dZ)), -2 / dR**2 - 2 / dZ**2, "diagonal of the operator", rtol=1e-10)
    ck.trace()
    ck.outcome(shape, dom)


# grids and domains which have sizes, spacings or extents in common
SEQ = [((9, 9), "std", 2), ((9, 9), "std", 4), ((9, 17), "std", 2), ((17, 9), "std", 2), ((17, 9), "std", 4), ((9, 17), "std", 4), ((9, 9), "shift", 2), ((9, 9), "shift", 4), ((9, 9), "tall", 2), ((9, 9), "tall", 4), ((9, 9), "wide", 2), ((9, 9), "wide", 4), ((9, 17), "tall", 4)]
DOMAINS_SEQ = {"std": (0.1, 2.0, -1.0, 1.0), "shift": (0.7, 2.6, -1.0, 1.0), "tall": (0.1, 2.0, -1.0, 1.5), "wide": (0.1, 2.4, -1.0, 1.0)}


def run_sequence(case, ck):
    """Solvers for different grids made and used in one process, in every order"""
    from freegs.equilibrium import Equilibrium
    from freegs.boundary import fixedBoundary, freeBoundary
    from freegs import multigrid
    from freegs.gradshafranov import GSsparse, GSsparse4thOrder

    made = []
    for k in case["seq"]:
        shape, dom, order = SEQ[k]
        d = DOMAINS_SEQ[dom]
        eq = Equilibrium(Rmin=d[0], Rmax=d[1], Zmin=d[2], Zmax=d[3], nx=shape[0], ny=shape[1], order=order, boundary=fixedBoundary if case["fixed"] else freeBoundary)
        made.append((eq, shape, d, order))
    keep = []
    for rep in range(2):
        for n, (eq, shape, d, order) in enumerate(made):
            J = np.zeros(shape)
            J[3, 4] = 1e5 * (1 + rep)
            J[5, 2] = -4e4
            eq.solve(StubProfile(), Jtor=J.copy())
            ck.step()
            psi = np.array(eq.plasma_psi)
            L = delta_star(psi, d, order)
            rhs = -MU0 * eq.R * J
            h = min(eq.dR, eq.dZ)
            ck.close(L[1:-1, 1:-1], rhs[1:-1, 1:-1], "equation on grid %d (%s) in the sequence %s" % (n, SEQ[case["seq"][n]], case["seq"]), rtol=0, atol=1e-10 * np.abs(psi).max() / h**2)
            if case["fixed"]:
                e = np.ones(shape, bool)
                e[1:-1, 1:-1] = False
                ck.expect(np.all(np.abs(psi[e]) < 1e-12 * np.abs(psi).max()), "zero on the edge, grid %d in the sequence %s" % (n, case["seq"]))
            keep.append((eq, psi))
    for i, (eq, psi) in enumerate(keep[len(made) :]):
        ck.expect(np.array_equal(np.array(eq.plasma_psi), psi), "an equilibrium is not changed by solving another")
    # the operators themselves
    for k in case["seq"]:
        shape, dom, order = SEQ[k]
        d = DOMAINS_SEQ[dom]
        A = (GSsparse if order == 2 else GSsparse4thOrder)(*d)(*shape)
        x = np.cos(np.arange(shape[0] * shape[1]) * 0.7).reshape(shape)
        got = (A @ x.ravel()).reshape(shape)
        want = delta_star(x, d, order)
        h = min((d[1] - d[0]) / (shape[0] - 1), (d[3] - d[2]) / (shape[1] - 1))
        ck.close(got[1:-1, 1:-1], want[1:-1, 1:-1], "operator %s in the sequence %s" % (SEQ[k], case["seq"]), rtol=0, atol=1e-10 / h**2)
    ck.state(case)
    ck.trace()
    ck.outcome(len(case["seq"]), case["fixed"])


def check(tier):
    q = tier == "quick"
    s2 = [(5, 5), (9, 5), (5, 9), (9, 9), (17, 9), (9, 17)] + ([] if q else [(17, 17), (33, 9), (9, 33), (33, 17)])
    s4 = [(9, 9), (17, 9), (9, 17)] + ([] if q else [(17, 17), (33, 9), (9, 33), (33, 17)])
    shapes = [(s, 2) for s in s2] + [(s, 4) for s in s4]
    units = [dict(shape=list(s), dom=d, order=o) for s, o in shapes for d in DOMAINS]
    polys = [
        dict(shape=list(s), dom=d, order=o, p=p, q=qq)
        for s, o in shapes
        for d in DOMAINS
        for p, qq in itertools.product(range(o + 1), repeat=2)
        if qq <= (3 if o == 2 else 5)
    ]
    solves = []
    for s, o in [((9, 9), 2), ((9, 17), 2), ((17, 9), 4), ((9, 17), 4), ((17, 17), 4)]:
        for d in DOMAINS:
            for b in ("free", "fixed", "custom"):
                pts = [[i, j] for i in range(1, s[0] - 1) for j in range(1, s[1] - 1)]
                if q:
                    pts = [p for p in pts if p[0] in (1, 2, s[0] // 2, s[0] - 2) or p[1] in (1, s[1] // 2, s[1] - 2)]
                    if b == "free":
                        pts = pts[::4]
                solves.append(dict(shape=list(s), dom=d, order=o, boundary=b, points=pts))
    cur = [dict(shape=list(s), dom=d, p=p, q=r) for s in [(9, 9), (17, 9), (9, 33)] for d in DOMAINS for p in range(4) for r in range(4)]
    ops = [dict(shape=list(s), dom=d) for s in [(5, 5), (9, 5), (5, 9), (9, 9), (9, 17)] for d in DOMAINS]
    idx = range(len(SEQ))
    seqs = [[a, b] for a in idx for b in idx] + ([] if q else [list(x) for x in itertools.permutations(idx, 3)])
    seqs = [dict(seq=x, fixed=f) for x in seqs for f in ((True,) if len(x) == 3 else (True, False))]
    return CheckDef(
        "C06",
        [
            Section("sequences of grids", seqs, run_sequence, "all ordered %s of grids and domains with sizes or extents in common, in one process, each solved twice" % ("pairs" if q else "pairs and triples")),
            Section("operators", ops, run_operator, "every unit function on every listed grid"),
            Section("unit sources", units, run_units, "every unit right-hand side and boundary value on grids %s" % (sorted(set(s2 + s4)),)),
            Section("monomials", polys, run_poly, "all R^p Z^q up to the order of the stencil"),
            Section("solve", solves, run_solve, "unit currents through Equilibrium.solve, three boundary conditions"),
            Section("plasma current", cur, run_current, "all monomials up to degree 3"),
        ],
        ["fourth order needs at least six points in each direction"],
    )
