"""C08: multigrid solvers converge to the direct solution.

For every configuration (operator, grid, levels, cycles, iterations, coarse
solver) the real solver is run on every unit error and every unit right-hand
side.  The solver is affine (checked), so these runs give the complete
iteration x -> M x + N b, and "converges for every start and every source" is
decided exactly: spectral radius of M below one, N A = 1 - M for the
independently assembled A (every solution is a fixed point, and the only one).
"""

import functools
import numpy as np
from mc.core import CheckDef, Section
from mc.eqs import StubProfile, bump

OPERATORS = {
    "laplace": ("L", 1.0, 1.3),
    "laplace wide": ("L", 3.0, 1.0),
    "GS": ("G", 0.2, 1.5, -1.0, 1.0),
    "GS thin": ("G", 0.5, 0.9, -1.0, 1.0),
    "GS wide": ("G", 0.1, 3.0, -0.5, 0.5),
}


def generator(name):
    from freegs import multigrid
    from freegs.gradshafranov import GSsparse

    o = OPERATORS[name]
    return multigrid.LaplaceSparse(*o[1:]) if o[0] == "L" else GSsparse(*o[1:])


@functools.lru_cache(None)
def matrix(name, nx, ny):
    """Independent assembly: identity on the boundary, stencil inside"""
    o = OPERATORS[name]
    if o[0] == "L":
        hx, hy, R = o[1] / (nx - 1), o[2] / (ny - 1), None
    else:
        hx, hy = (o[2] - o[1]) / (nx - 1), (o[4] - o[3]) / (ny - 1)
        R = np.linspace(o[1], o[2], nx)
    A = np.eye(nx * ny)
    for i in range(1, nx - 1):
        for j in range(1, ny - 1):
            k = i * ny + j
            d = 0.0 if R is None else 1 / (2 * R[i] * hx)
            A[k, k] = -2 / hx**2 - 2 / hy**2
            A[k, k - 1] = A[k, k + 1] = 1 / hy**2
            A[k, k - ny] = 1 / hx**2 + d
            A[k, k + ny] = 1 / hx**2 - d
    return A


def iteration(solver, shape):
    n = shape[0] * shape[1]
    z = np.zeros(shape)
    M, N = np.zeros((n, n)), np.zeros((n, n))
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        M[:, k] = np.reshape(solver(e.reshape(shape), z.copy()), -1)
        N[:, k] = np.reshape(solver(z.copy(), e.reshape(shape)), -1)
    return M, N


def halvable(nx, ny):
    return nx % 2 == 1 and ny % 2 == 1


def boundary(shape):
    m = np.ones(shape, bool)
    m[1:-1, 1:-1] = False
    return m.reshape(-1)


def smooth_error(shape):
    nx, ny = shape
    return (np.sin(np.pi * np.arange(nx) / (nx - 1))[:, None] * np.sin(np.pi * np.arange(ny) / (ny - 1))).reshape(-1)


def run_config(case, ck):
    from freegs import multigrid

    name, shape = case["op"], tuple(case["shape"])
    nx, ny = shape
    n = nx * ny
    nl, nit, direct = case["levels"], case["niter"], case["direct"]
    kw = dict(nlevels=nl, niter=nit, direct=direct)
    gen = generator(name)
    A = matrix(name, nx, ny)
    s = multigrid.createVcycle(nx, ny, gen, ncycle=1, **kw)
    M, N = iteration(s, shape)
    ck.step(2 * n)
    ck.state(case)
    what = "%s %s levels=%d niter=%d direct=%s" % (name, shape, nl, nit, direct)
    # the only fixed points are solutions of the system
    ck.close(N @ A + M, np.eye(n), "a solution is left unchanged: " + what, rtol=0, atol=1e-8)
    r = float(np.abs(np.linalg.eigvals(M)).max())
    ck.expect(r < 1 - 1e-6, "%s: error is multiplied by %g per cycle" % (what, r))
    # boundary values are those of the right-hand side
    b = boundary(shape)
    ck.close(M[b], 0.0, "boundary values forget the guess: " + what, rtol=0, atol=1e-9)
    ck.close(N[b], np.eye(n)[b], "boundary values are given by b: " + what, rtol=0, atol=1e-9)
    exact = direct and (nl == 1 or not halvable(nx, ny))
    if exact:
        ck.close(N @ A, np.eye(n), "direct solution: " + what, rtol=0, atol=1e-8)
    # coarse levels remove smooth errors
    e = smooth_error(shape)
    sm = np.linalg.norm(M @ e) / np.linalg.norm(e)
    if nl > 1 and halvable(nx, ny):
        ck.expect(sm < (0.35 if direct else 0.85), "%s: smooth error only reduced by factor %g" % (what, sm))
    # affine in guess and source; deterministic; does not modify arguments
    x = (np.arange(n) % 7 - 3.0).reshape(shape)
    q = (np.arange(n) % 5 - 2.0).reshape(shape)
    x0, q0 = x.copy(), q.copy()
    want = M @ x.reshape(-1) + N @ q.reshape(-1)
    got = s(x, q)
    ck.close(got, want.reshape(shape), "affine: " + what, rtol=0, atol=1e-8 * np.abs(want).max())
    ck.expect(np.array_equal(x, x0) and np.array_equal(q, q0), "guess and right-hand side are not modified: " + what)
    ck.same(np.shape(got), shape, "shape of the result")
    # several cycles
    y = x.reshape(-1)
    for c in (2, 3):
        sc = multigrid.createVcycle(nx, ny, gen, ncycle=c, **kw)
        got = np.reshape(sc(x, q), -1)
        ck.step()
        if exact:
            want = np.linalg.solve(A, q.reshape(-1))
        else:
            y = x.reshape(-1)
            for _ in range(c):
                y = M @ y + N @ q.reshape(-1)
            want = y
        # no further from the solution than c single cycles leave it
        sol = np.linalg.solve(A, q.reshape(-1))
        ck.expect(
            np.linalg.norm(got - sol) <= 1.02 * np.linalg.norm(want - sol) + 1e-8 * np.linalg.norm(sol),
            lambda: "%s: %d cycles leave an error of %g, repeated single cycles %g" % (what, c, np.linalg.norm(got - sol), np.linalg.norm(want - sol)),
        )
    # enough cycles give the direct solution
    if not exact:
        c = int(np.ceil(np.log(1e-9) / np.log(r))) + 5
        got = multigrid.createVcycle(nx, ny, gen, ncycle=c, **kw)(x, q)
        ck.step()
        d = multigrid.MGDirect(gen(nx, ny))(x, q)
        ck.close(d.reshape(-1), sol, "direct solver: " + what, rtol=0, atol=1e-8 * np.abs(sol).max())
        ck.close(got, d, "%s: %d cycles against the direct solution" % (what, c), rtol=0, atol=1e-6 * np.abs(sol).max())
    ck.trace(2 * n + 3)
    ck.outcome(name, nl, direct, "exact" if exact else "iterative")


def run_matrixfree(case, ck):
    """smoothMG / smoothVcycle with operator objects, every unit error"""
    from freegs import multigrid
    from freegs.gradshafranov import GSElliptic

    name, shape = case["op"], tuple(case["shape"])
    nx, ny = shape
    n = nx * ny
    o = OPERATORS[name]
    if o[0] == "L":
        op, hx, hy = multigrid.LaplacianOp(), o[1] / (nx - 1), o[2] / (ny - 1)
    else:
        op, hx, hy = GSElliptic(o[1]), (o[2] - o[1]) / (nx - 1), (o[4] - o[3]) / (ny - 1)
    A = matrix(name, nx, ny)
    inner = ~boundary(shape)
    # the operator itself on every unit vector
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        got = np.reshape(op(e.reshape(shape), hx, hy), -1)
        ck.step()
        ck.close(got[inner], (A @ e)[inner], "operator on unit vector %d" % k, rtol=1e-9, atol=1e-9 * np.abs(A).max())
    z = np.zeros(shape)
    sub, nit = case["sub"], case["niter"]
    f = lambda x, b, c=1: multigrid.smoothMG(op, x, b, hx, hy, niter=nit, sublevels=sub, ncycle=c)
    M = np.zeros((n, n))
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1.0
        M[:, k] = np.reshape(f(e.reshape(shape), z.copy()), -1)
        ck.step()
    what = "%s %s sublevels=%d niter=%d" % (name, shape, sub, nit)
    ck.state(case)
    bd = boundary(shape)
    ck.close(M[bd][:, bd], np.eye(int(bd.sum())), "boundary values preserved: " + what, rtol=0, atol=1e-12)
    ck.close(M[bd][:, inner], 0.0, "boundary values preserved: " + what, rtol=0, atol=1e-12)
    r = float(np.abs(np.linalg.eigvals(M[inner][:, inner])).max())
    ck.expect(r < 1 - 1e-6, "%s: error is multiplied by %g per cycle" % (what, r))
    # fixed points are the solutions: with any boundary values
    x = (np.arange(n) % 7 - 3.0).reshape(shape)
    b = A @ x.reshape(-1)
    b[bd] = 0.0
    ck.close(f(x.copy(), b.reshape(shape)), x, "a solution is left unchanged: " + what, rtol=0, atol=1e-8)
    g = x.copy()
    g[1:-1, 1:-1] = 0.0
    c = int(np.ceil(np.log(1e-7) / np.log(r))) + 3
    ck.close(f(g, b.reshape(shape), c), x, "%s: after %d cycles" % (what, c), rtol=0, atol=1e-4)
    if sub:
        e = smooth_error(shape)
        sm = np.linalg.norm(M @ e) / np.linalg.norm(e)
        single = np.reshape(multigrid.smoothMG(op, e.reshape(shape), z, hx, hy, niter=nit, sublevels=0, ncycle=1), -1)
        ck.expect(sm < 0.95 * np.linalg.norm(single) / np.linalg.norm(e), "%s: coarse levels do not help (%g)" % (what, sm))
    ck.trace(2 * n)
    ck.outcome(name, sub)


def run_equilibrium(case, ck):
    """The same flux through the equilibrium, whichever solver is selected"""
    from freegs.equilibrium import Equilibrium

    dom = dict(Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=case["shape"][0], ny=case["shape"][1])
    a = Equilibrium(order=2, **dom)
    b = Equilibrium(order=case["order"], **dom)
    nit = 10
    cyc = 60 * max(1, (max(case["shape"]) // 16) ** 2)
    b.setSolverVcycle(nlevels=case["levels"], ncycle=cyc, niter=nit, direct=case["direct"])
    pow2 = all(n - 1 in (8, 16, 32, 64) for n in case["shape"])
    # (the free boundary integral needs 2^n + 1 points)
    for i, (R0, Z0, I) in enumerate([(1.0, 0.0, 1e5), (1.1, 0.2, -2e5)] if pow2 else []):
        J = bump(a.R, a.Z, R0, Z0, 0.4, I, e=1.0)
        a.solve(StubProfile(), Jtor=J)
        b.solve(StubProfile(), Jtor=J)
        ck.step(2)
        ck.close(b.plasma_psi, a.plasma_psi, "flux with multigrid solver, solve %d: %s" % (i, case), rtol=0, atol=1e-6 * np.abs(a.plasma_psi).max())
    ck.state(case)
    ck.trace()
    # callSolver: source and boundary given directly
    rhs = np.sin(np.arange(a.R.size)).reshape(a.R.shape)
    guess = np.ones(a.R.shape)
    x = a.callSolver(guess, rhs)
    y = b.callSolver(guess, rhs)
    ck.close(y, x, "callSolver: %s" % case, rtol=0, atol=1e-6 * np.abs(x).max())
    ck.expect(np.all(guess == 1.0), "guess is not modified")
    ck.outcome(case["levels"], case["direct"])


def run_transfer(case, ck):
    from freegs import multigrid

    nx, ny = case["shape"]
    NX, NY = 2 * nx - 1, 2 * ny - 1
    for i in range(1, nx - 1):
        for j in range(1, ny - 1):
            c = np.zeros((nx, ny))
            c[i, j] = 2.0
            f = multigrid.interpolate(c)
            ck.step()
            ck.state(nx, ny, i, j)
            ck.same(np.shape(f), (NX, NY), "shape of the interpolated field")
            X, Y = np.meshgrid(np.arange(NX), np.arange(NY), indexing="ij")
            hat = np.clip(1 - np.abs(X - 2 * i) / 2, 0, None) * np.clip(1 - np.abs(Y - 2 * j) / 2, 0, None)
            ck.close(f, 2 * hat, "bilinear interpolation of unit value (%d,%d)" % (i, j), rtol=1e-12, atol=1e-12)
            out = np.full((NX, NY), 9.0)
            f2 = multigrid.interpolate(c, out)
            ck.close(f2, 2 * hat, "into a given array", rtol=1e-12, atol=1e-12)
            g = multigrid.restrict(f)
            ck.same(np.shape(g), (nx, ny), "shape of the restricted field")
            ck.close(g.sum(), g[i, j], "restriction of a hat is local (%d,%d)" % (i, j), rtol=1.0)
    ck.trace()
    ck.outcome(nx, ny)


def check(tier):
    q = tier == "quick"
    shapes = [(5, 5), (5, 9), (9, 5), (9, 9), (6, 8), (7, 11), (13, 9)]
    if not q:
        shapes += [(9, 17), (17, 9), (17, 17), (10, 10), (11, 13), (9, 21)]
    niter = (3, 4, 10) if q else (3, 4, 5, 7, 10)
    conf = [
        dict(op=o, shape=list(s), levels=l, niter=i, direct=d)
        for s in shapes
        for o in OPERATORS
        for l in (1, 2, 3, 4)
        for i in niter
        for d in (True, False)
    ]
    mf = [
        dict(op=o, shape=list(s), sub=u, niter=i)
        for s in ([(5, 5), (5, 9), (9, 5), (9, 9)] + ([] if q else [(9, 17), (17, 9)]))
        for o in ("laplace", "GS", "GS thin")
        for u in (0, 1, 2)
        for i in ((4,) if q else (4, 8))
        if min(s) > 5 or u < 2
    ]
    eqs = [
        dict(shape=list(s), levels=l, direct=d, order=o)
        for s in ([(9, 9), (17, 17), (9, 17), (17, 9), (10, 12)] + ([] if q else [(33, 17), (17, 33), (33, 33), (18, 21)]))
        for l in (1, 2, 3, 4)
        for d in (True, False)
        for o in (2, 4)
    ]
    tr = [dict(shape=list(s)) for s in [(3, 3), (3, 5), (5, 3), (5, 5), (9, 5)]]
    return CheckDef(
        "C08",
        [
            Section("grid transfer", tr, run_transfer, "every unit value on coarse grids up to 9x5"),
            Section("V-cycles", conf, run_config, "operators x grids %s x levels 1-4 x niter %s x direct/iterative, every unit error and source" % (shapes, list(niter))),
            Section("matrix-free", mf, run_matrixfree, "every unit error; sublevels 0-2"),
            Section("equilibrium", eqs, run_equilibrium, "grids x levels x coarse solver x order"),
        ],
        ["second order operators, at least three smoothing iterations per level"],
    )
