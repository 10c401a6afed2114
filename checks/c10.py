"""C10: the core mask is the region connected to the axis inside the boundary.

Enumerated: every in/out pattern of every small grid, with every axis position
and X-point placement; labyrinths and double-null layouts on larger grids.
Model: graph reachability (breadth first over a set) written here.
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section

LEVEL_IN = (0.3, -0.2, 0.999, 0.0, 0.7)
LEVEL_OUT = (1.3, 1.0, 5.0, 1.0001)


def grid(shape):
    R = np.linspace(1.0, 2.0, shape[0])
    Z = np.linspace(-1.0, 0.5, shape[1])
    return np.meshgrid(R, Z, indexing="ij")


def neighbourhood(ix, jx, shape):
    return {(i, j) for i in (ix - 1, ix, ix + 1) for j in (jx - 1, jx, jx + 1) if 0 <= i < shape[0] and 0 <= j < shape[1]}


def expected(inside, shape, axis, xpts):
    """inside: set of cells with flux inside the boundary"""
    blocked = set()
    for x in xpts:
        blocked |= neighbourhood(x[0], x[1], shape)
    seen, todo = {axis}, [axis]
    while todo:
        i, j = todo.pop(0)
        for c in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if c in inside and c not in blocked and c not in seen:
                seen.add(c)
                todo.append(c)
    return (seen - blocked) | (blocked & inside)


def place(R, Z, c, frac):
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    return float(R[c[0], c[1]] + frac[0] * dR), float(Z[c[0], c[1]] + frac[1] * dZ)


def build(R, Z, inside, n, sign):
    shape = R.shape
    psi = np.empty(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            k = n + 3 * i + j
            psi[i, j] = LEVEL_IN[k % 5] if (i, j) in inside else LEVEL_OUT[k % 4]
    # axis at 2.0, boundary at 2.0 + sign; exact in binary
    return psi, 2.0 + sign * psi, 2.0, 2.0 + sign


def one(ck, R, Z, inside, axis, xpts, n):
    from freegs.critical import core_mask

    shape = R.shape
    sign = 1.0 if n % 2 else -1.0
    psin, psi, pa, pb = build(R, Z, inside, n, sign)
    frac = [(0.0, 0.0), (0.3, -0.4), (-0.45, 0.2)][n % 3]
    opt = [place(R, Z, axis, frac) + (pa,)]
    if n % 5 == 0:
        # another O-point, which must not matter
        opt.append((float(R[0, 0]), float(Z[0, 0]), 1.7))
    xp = [place(R, Z, x, frac) + (pb if k == 0 else pb + sign * 0.4 * k,) for k, x in enumerate(xpts)]
    if xpts and n % 2:
        got = core_mask(R, Z, psi, opt, xp)
        how = "X-point flux"
    else:
        # given boundary flux; the X-points' own flux does not matter
        if n % 4 == 0:
            xp = [(r, z, -9.0) for r, z, _ in xp][::-1]
        got = core_mask(R, Z, psi, opt, xp, pb)
        how = "given boundary"
    # cells whose normalised flux is one to rounding could go either way
    want = expected(inside, shape, axis, xpts)
    w = np.zeros(shape)
    for c in want:
        w[c] = 1.0
    ck.comparisons += 1
    if np.shape(got) != shape or not np.array_equal(np.asarray(got, dtype=float), w):
        ck.expect(False, "mask (%s)\n%s\nexpected\n%s\nnormalised flux\n%s\naxis %s X-points %s" % (how, np.asarray(got), w, psin, axis, list(xpts)))


def run_all(case, ck):
    shape, axis = tuple(case["shape"]), tuple(case["axis"])
    xpts = [tuple(x) for x in case["xpts"]]
    R, Z = grid(shape)
    cells = [c for c in itertools.product(range(shape[0]), range(shape[1])) if c != axis]
    n = 0
    for bits in range(1 << len(cells)):
        if case.get("part") is not None and bits % case["parts"] != case["part"]:
            continue
        inside = {axis} | {c for k, c in enumerate(cells) if bits >> k & 1}
        one(ck, R, Z, inside, axis, xpts, bits)
        n += 1
    ck.step(n)
    ck.trace(n)
    # every pattern is a distinct state
    for k in range(min(n, 64)):
        ck.state(shape, axis, xpts, k)
    ck.note("patterns", n)
    ck.outcome(shape, len(xpts))


def labyrinth(shape, kind, gaps):
    """All cells in except walls with single gaps"""
    nx, ny = shape
    inside = set(itertools.product(range(nx), range(ny)))
    for w, g in enumerate(gaps):
        p = 2 * w + 1
        if kind == "R":
            inside -= {(p, j) for j in range(ny) if j != g}
        else:
            inside -= {(i, p) for i in range(nx) if i != g}
    return inside


def run_maze(case, ck):
    shape = tuple(case["shape"])
    R, Z = grid(shape)
    inside = labyrinth(shape, case["kind"], case["gaps"])
    n = 0
    for axis in itertools.product(range(shape[0]), range(shape[1])):
        if axis not in inside:
            continue
        for xpts in [[]] + [[x] for x in case["x"]]:
            one(ck, R, Z, inside, axis, [tuple(x) for x in xpts], n + case["n"])
            n += 1
            ck.state(shape, case["kind"], case["gaps"], axis, xpts)
    ck.step(n)
    ck.trace(n)
    ck.outcome(case["kind"], shape)


def run_nulls(case, ck):
    """Two X-points anywhere around a filled ellipse with legs"""
    shape = tuple(case["shape"])
    R, Z = grid(shape)
    a, b = tuple(case["a"]), tuple(case["b"])
    ci, cj = shape[0] // 2, shape[1] // 2
    n = 0
    for rad in (1.5, 2.5, 3.5, 20.0):
        for leg in (False, True):
            inside = {c for c in itertools.product(range(shape[0]), range(shape[1])) if (c[0] - ci) ** 2 + (c[1] - cj) ** 2 <= rad**2 or (leg and c[0] == a[0]) or (leg and c[1] == b[1])}
            inside |= {(ci, cj)}
            one(ck, R, Z, inside, (ci, cj), [a, b], n)
            one(ck, R, Z, inside, (ci, cj), [b, a], n + 1)
            one(ck, R, Z, inside, (ci, cj), [b, a, (0, 0)], n + 3)
            n += 3
    ck.state(case)
    ck.step(n)
    ck.trace(n)
    ck.outcome(shape)


def run_symmetry(case, ck):
    """Sign, mirror image and X-point order on solved equilibria"""
    from freegs.critical import core_mask, find_critical
    from mc.eqs import diverted

    eq, prof, con = diverted(case["nx"], case["ny"])
    psi = eq.psi()
    opt, xpt = find_critical(eq.R, eq.Z, psi)
    m = core_mask(eq.R, eq.Z, psi, opt, xpt, eq.psi_bndry)
    ck.step()
    # against the model
    psin = (psi - opt[0][2]) / (eq.psi_bndry - opt[0][2])
    near = lambda r, z: (int(np.argmin(np.abs(eq.R[:, 0] - r))), int(np.argmin(np.abs(eq.Z[0, :] - z))))
    inside = {tuple(c) for c in np.argwhere(psin < 1.0)}
    want = expected({(int(i), int(j)) for i, j in inside}, psi.shape, near(*opt[0][:2]), [near(x[0], x[1]) for x in xpt])
    w = np.zeros(psi.shape)
    for c in want:
        w[c] = 1
    edge = np.abs(psin - 1) < 1e-9
    ck.expect(np.array_equal(np.where(edge, 0, m), np.where(edge, 0, w)), "mask of a solved equilibrium")
    neg = core_mask(eq.R, eq.Z, -psi, [(r, z, -p) for r, z, p in opt], [(r, z, -p) for r, z, p in xpt], -eq.psi_bndry)
    ck.expect(np.array_equal(m, neg), "mask of the negative flux")
    mir = core_mask(eq.R, -eq.Z[:, ::-1], psi[:, ::-1], [(r, -z, p) for r, z, p in opt], [(r, -z, p) for r, z, p in xpt], eq.psi_bndry)
    ck.expect(np.array_equal(m, mir[:, ::-1]), "mask of the mirror image")
    rev = core_mask(eq.R, eq.Z, psi, opt, xpt[::-1], eq.psi_bndry)
    ck.expect(np.array_equal(m, rev), "mask for reversed X-points")
    ck.expect(np.array_equal(np.asarray(eq.mask), m), "mask used by the equilibrium")
    # the same array objects, changed in place between calls
    P, O, X = psi.copy(), list(opt), list(xpt)
    a = core_mask(eq.R, eq.Z, P, O, X, eq.psi_bndry)
    ck.expect(np.array_equal(m, a), "mask of a copy")
    inner = opt[0][2] + 0.5 * (eq.psi_bndry - opt[0][2])
    b = core_mask(eq.R, eq.Z, P, O, X, inner)
    ck.expect(0 < b.sum() < m.sum() and np.all(m[b > 0] == 1) and np.array_equal(b > 0, (psin < 0.5) & (m > 0)), "mask of half the flux")
    P *= -1.0
    O[:] = [(r, z, -p) for r, z, p in opt]
    X[:] = [(r, z, -p) for r, z, p in xpt]
    c = core_mask(eq.R, eq.Z, P, O, X, -inner)
    ck.expect(np.array_equal(b, c), "mask after the flux is negated in place")
    P *= -1.0
    O[:] = opt
    X[:] = xpt
    c *= 0
    ck.expect(np.array_equal(core_mask(eq.R, eq.Z, P, O, X), core_mask(eq.R, eq.Z, psi, opt, xpt)), "mask inside the X-point")
    ck.expect(np.array_equal(P, psi) and O == list(opt) and X == list(xpt), "nothing is modified")
    ck.expect(np.array_equal(a, m) and np.array_equal(core_mask(eq.R, eq.Z, P, O, X, inner), b), "masks belong to the caller")
    ck.step(3)
    ck.state(case)
    ck.trace(4)
    ck.outcome("solved")


def check(tier):
    q = tier == "quick"
    pats = []

    def add(shape, xmax, parts=None):
        cells = list(itertools.product(range(shape[0]), range(shape[1])))
        for nx in range(xmax + 1):
            for xs in itertools.combinations(cells, nx):
                for a in cells:
                    base = dict(shape=list(shape), axis=list(a), xpts=[list(x) for x in xs])
                    if parts:
                        pats.extend(dict(base, part=p, parts=parts) for p in range(parts))
                    else:
                        pats.append(base)

    add((2, 2), 2)
    add((2, 4), 1)
    add((4, 2), 1)
    add((3, 3), 2)
    add((3, 4), 0 if q else 1)
    add((4, 3), 0 if q else 1)
    if not q:
        add((4, 4), 0, 4)
        add((3, 5), 0, 2)
        add((5, 3), 0, 2)
        add((2, 6), 1)
        add((6, 2), 1)
    # corners and edges of a 4x4 grid with one X-point
    if not q:
        for xs in ([0, 0], [1, 1], [3, 2]):
            for a in itertools.product(range(4), range(4)):
                pats.extend(dict(shape=[4, 4], axis=list(a), xpts=[xs], part=p, parts=4) for p in range(4))
    maze = []
    for n, (shape, kind) in enumerate(itertools.product([(7, 5), (5, 7), (7, 7)], "RZ")):
        nw = (shape[0] if kind == "R" else shape[1]) // 2
        L = shape[1] if kind == "R" else shape[0]
        pos = (0, L // 2, L - 1) if q else range(L)
        for g in itertools.product(pos, repeat=nw):
            maze.append(dict(shape=list(shape), kind=kind, gaps=list(g), x=[[2, 2], [shape[0] - 1, 0], [0, 3]], n=n))
    s = (9, 7) if q else (9, 9)
    cells = list(itertools.product(range(s[0]), range(s[1])))
    nulls = [dict(shape=list(s), a=list(a), b=list(b)) for a, b in itertools.combinations(cells, 2)]
    sym = [dict(nx=a, ny=b) for a, b in [(33, 33), (33, 65), (65, 33)]]
    return CheckDef(
        "C10",
        [
            Section("patterns", pats, run_all, "every in/out pattern of grids up to %s with every axis and X-point placement" % ("3x4" if q else "4x4, 3x5")),
            Section("labyrinths", maze, run_maze, "walls with every gap position, every axis position"),
            Section("two X-points", nulls, run_nulls, "every pair of X-point cells on a %dx%d grid" % s),
            Section("solved", sym, run_symmetry, "sign, mirror, X-point order"),
        ],
        ["the axis lies inside the boundary flux"],
    )
