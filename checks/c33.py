"""C33: evaluations depend on the values of their arguments, not on their form.

Every evaluation is called with the same values in every form (scalars, arrays
of any shape, memory layout and type, read-only, broadcast against each other)
and must return, element by element, what it returns for plain numbers, in the
shape of its arguments, leaving the arguments alone.
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section
from mc import coils as mc_coils
from mc import eqs

R2 = np.array([[0.72, 1.02, 1.31], [0.93, 1.13, 0.81]])
Z2 = np.array([[0.11, -0.32, 0.21], [0.0, 0.26, -0.13]])
RI = np.array([[1, 1, 1], [1, 1, 1]])
ZI = np.array([[0, 0, 0], [0, 0, 0]])
RI[0, 1] = 1
X2 = np.array([[0.2, 0.5, 0.9], [0.05, 0.75, 0.6]])


def layouts(a):
    """The same 2D array in different memory"""
    big = np.full((2 * a.shape[0], 2 * a.shape[1]), 7, dtype=a.dtype)
    big[::2, ::2] = a
    ro = a.copy()
    ro.flags.writeable = False
    wide = np.zeros((a.shape[0], a.shape[1] + 3), dtype=a.dtype)
    wide[:, 2:-1] = a
    return {
        "C": a.copy(),
        "F": np.asfortranarray(a),
        "transposed": a.T.copy().T,
        "strided": big[::2, ::2],
        "reversed": a[::-1, ::-1].copy()[::-1, ::-1],
        "read-only": ro,
        "window": wide[:, 2:-1],
    }


LAYOUTS = ["C", "F", "transposed", "strided", "reversed", "read-only", "window"]
SHAPES = ["2d", "1d", "3d", "one", "empty", "py", "np", "0d", "pyint", "int1d", "int2d", "Rscalar", "Zscalar", "R0d", "outer", "outer2"]


def pair(form):
    if form in SHAPES:
        return {
            "2d": (R2.copy(), Z2.copy()),
            "1d": (R2.ravel().copy(), Z2.ravel().copy()),
            "3d": (R2.reshape(2, 1, 3).copy(), Z2.reshape(2, 1, 3).copy()),
            "one": (R2[:1, 0].copy(), Z2[:1, 0].copy()),
            "empty": (np.zeros(0), np.zeros(0)),
            "py": (0.97, -0.12),
            "np": (np.float64(0.97), np.float64(-0.12)),
            "0d": (np.array(0.97), np.array(-0.12)),
            "pyint": (1, 0),
            "int1d": (np.array([1, 1, 1]), np.array([0, 0, 0])),
            "int2d": (RI.copy(), Z2.copy()),
            "Rscalar": (1.13, Z2.copy()),
            "Zscalar": (R2.copy(), 0.21),
            "R0d": (np.array(1.13), Z2.ravel().copy()),
            "outer": (R2[0][:, None].copy(), Z2[:, 0][None, :].copy()),
            "outer2": (R2[1][None, :].copy(), Z2[0][:, None].copy()),
        }[form]
    a, b = form
    return layouts(R2)[a], layouts(Z2)[b]


# --- evaluations at points --------------------------------------------------
METHODS = ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz")
_cache = {}


def equilibrium(kind):
    if kind not in _cache:
        if kind == "scripted":
            _cache[kind] = eqs.scripted("lower", "33x33")
        elif kind == "reversed":
            _cache[kind] = eqs.scripted("upper", "33x65", sign=-1.0)
        elif kind == "limited":
            _cache[kind] = eqs.scripted("lower", "33x33", wall=eqs.rectangle(0.75, 1.7, -0.9, 0.85), limited=True)
        else:
            _cache[kind] = eqs.diverted()[0]
    return _cache[kind]


def point_functions(owner):
    if owner.startswith("coil "):
        k = owner[5:]
        c = mc_coils.build(dict(kind=k, current=1.5e3, turns=mc_coils.KINDS[k]["turns"], control=True, dR=0.0, dZ=0.0))
        return {m: getattr(c, m) for m in METHODS}
    if owner == "circuit":
        from freegs.machine import Circuit

        c = Circuit([(k, mc_coils.build(dict(kind=k, current=0.0, turns=mc_coils.KINDS[k]["turns"], control=True, dR=0.0, dZ=0.0)), m) for k, m in (("point", 1.0), ("rect", -2.0), ("multi", 0.5))])
        c.current = 2e3
        return {m: getattr(c, m) for m in METHODS}
    if owner == "machine":
        from freegs.machine import Machine

        m = Machine([(k, mc_coils.build(dict(kind=k, current=100.0 + 7 * i, turns=mc_coils.KINDS[k]["turns"], control=True, dR=0.0, dZ=0.0))) for i, k in enumerate(mc_coils.KINDS)])
        d = {n: getattr(m, n) for n in METHODS[:3]}
        for n in METHODS[3:]:
            for i in (0, len(m.coils) - 1):
                d["%s[%d]" % (n, i)] = lambda R, Z, f=getattr(m, n), i=i: f(R, Z)[i]
        return d
    if owner == "loop":
        import freegs.gradshafranov as g

        d = {}
        for n in ("Greens", "GreensBr", "GreensBz"):
            f = getattr(g, n)
            d[n] = lambda R, Z, f=f: f(1.21, 0.33, R, Z)
            if n == "Greens":
                d[n + " of the source"] = lambda R, Z, f=f: f(R, Z, 1.21, 0.33)
        return d
    if owner == "Greens functions":
        from freegs.coil import Coil

        c = Coil(1.6, 0.3, current=2.0, turns=3)
        return {"createPsiGreens": lambda R, Z: c.calcPsiFromGreens(c.createPsiGreens(R, Z))}
    eq = equilibrium(owner[12:])
    return {n: getattr(eq, n) for n in ("psiRZ", "psiNRZ", "Br", "Bz", "Bpol", "Btor", "Btot", "plasmaBr", "plasmaBz")}


OWNERS = ["coil " + k for k in mc_coils.KINDS] + ["circuit", "machine", "loop", "Greens functions", "equilibrium scripted", "equilibrium reversed", "equilibrium limited", "equilibrium solved"]
_truth = {}


def truth(owner, name, f, r, z):
    k = (owner, name, r, z)
    if k not in _truth:
        _truth[k] = float(np.ravel(f(r, z))[0])
    return _truth[k]


def run_points(case, ck):
    owner = case["owner"]
    fs = point_functions(owner)
    for form in case["forms"]:
        for name, f in fs.items():
            R, Z = pair(tuple(form) if isinstance(form, list) else form)
            A, B = np.broadcast_arrays(np.asarray(R, float), np.asarray(Z, float))
            want = np.zeros(A.shape)
            for i in np.ndindex(*A.shape):
                want[i] = truth(owner, name, f, float(A[i]), float(B[i]))
            R0, Z0 = np.array(R, copy=True), np.array(Z, copy=True)
            what = "%s of %s with arguments %s" % (name, owner, form)
            got = f(R, Z)
            ck.step()
            ck.same(np.shape(got), want.shape, what + ": shape")
            if want.size:
                ck.close(np.asarray(got, float), want, what, rtol=1e-8, atol=1e-8 * np.abs(want).max())
            ck.expect(np.array_equal(R0, np.asarray(R)) and np.array_equal(Z0, np.asarray(Z)), what + ": arguments were changed")
            # the result is the caller's: changing it changes nothing else
            if isinstance(got, np.ndarray) and got.ndim and got.size and got.flags.writeable:
                got += 1.0
                ck.expect(np.array_equal(R0, np.asarray(R)) and np.array_equal(Z0, np.asarray(Z)), what + ": the result is the argument")
                if R is not None and np.ndim(R):
                    again = np.asarray(f(R, Z), float)
                    ck.close(again, want, what + " once more", rtol=1e-8, atol=1e-8 * np.abs(want).max())
        ck.state(owner, form)
        ck.outcome(form if isinstance(form, str) else "layout", owner.split()[0])
    ck.trace()


# --- profiles ---------------------------------------------------------------
XFORMS = LAYOUTS + ["1d", "3d", "list", "tuple", "one", "empty", "py", "np", "0d", "unsorted", "repeated", "ends", "int", "pyint", "outside"]


def xform(form):
    if form in LAYOUTS:
        return layouts(X2)[form]
    return {
        "1d": X2.ravel().copy(), "3d": X2.reshape(2, 1, 3).copy(), "list": X2.ravel().tolist(), "tuple": tuple(X2.ravel().tolist()),
        "one": np.array([0.3]), "empty": np.zeros(0), "py": 0.4, "np": np.float64(0.4), "0d": np.array(0.4),
        "unsorted": np.array([0.9, 0.1, 0.5]), "repeated": np.array([0.5, 0.5, 0.2]), "ends": np.array([0.0, 0.4, 1.0]),
        "int": np.array([0, 1, 0]), "pyint": 0, "outside": np.array([0.4, 1.0, 1.3]),
    }[form]


def profiles(kind):
    import freegs

    e = equilibrium("solved")
    if kind == "equilibrium":
        return {n: getattr(e, n) for n in ("fpol", "pressure", "pprime", "ffprime", "q")}
    if kind == "paxis":
        p = freegs.jtor.ConstrainPaxisIp(e, 1e3, 2e5, 2.0, alpha_m=1.5, alpha_n=1.2)
    elif kind == "betap":
        p = freegs.jtor.ConstrainBetapIp(e, 0.4, -2e5, 2.0)
    elif kind == "given":
        p = freegs.jtor.ProfilesPprimeFfprime(lambda x: 1e4 * (1 - np.asarray(x, float)), lambda x: 0.3 * (1 - np.asarray(x, float)) ** 2, -2.0)
    else:
        p = freegs.jtor.ProfilesPprimeFfprime(
            lambda x: 1e4 * (1 - np.asarray(x, float)), lambda x: 0.3 * (1 - np.asarray(x, float)) ** 2, -2.0,
            p_func=lambda x: 5e3 * (1 - np.asarray(x, float)) ** 2, f_func=lambda x: -2.0 - 0.1 * (1 - np.asarray(x, float)),
        )
    p.Jtor(e.R, e.Z, e.psi())
    return {n: getattr(p, n) for n in ("fpol", "pressure", "pprime", "ffprime")}


def run_profiles(case, ck):
    for name, f in profiles(case["kind"]).items():
        x = xform(case["form"])
        if name == "q" and (case["form"] in ("outside", "empty") or np.ndim(x) > 1):
            continue  # q takes lists of surfaces of the plasma
        a = np.asarray(x, float)
        want = np.zeros(a.shape)
        for i in np.ndindex(*a.shape):
            want[i] = float(np.ravel(f(float(a[i])))[0])
        x0 = np.array(x, copy=True)
        what = "%s of %s profiles with %s" % (name, case["kind"], case["form"])
        got = f(x)
        ck.step()
        if name == "q" and a.size == 1:
            # documented: one value gives a number
            got = np.reshape(got, a.shape)
        ck.same(np.shape(got), want.shape, what + ": shape")
        if want.size:
            # q near the ends is taken from an interpolation
            tol = 2e-3 if name == "q" else 1e-7
            ck.close(np.asarray(got, float), want, what, rtol=tol, atol=tol * np.abs(want).max())
        ck.expect(np.array_equal(x0, np.asarray(x)), what + ": argument was changed")
    ck.state(case)
    ck.trace()
    ck.outcome(case["form"])


# --- functions of the whole grid -------------------------------------------
def grid_functions():
    from freegs import critical, boundary, jtor
    import freegs

    def crit(e, R, Z, psi):
        o, x = critical.find_critical(R, Z, psi)
        return np.array([list(p) for p in o + x]).ravel()

    def mask(e, R, Z, psi):
        o, x = critical.find_critical(e.R, e.Z, e.psi())
        return critical.core_mask(R, Z, psi, o, x)

    def mask_b(e, R, Z, psi):
        o, x = critical.find_critical(e.R, e.Z, e.psi())
        return critical.core_mask(R, Z, psi, o, psi_bndry=0.5 * (o[0][2] + x[0][2]))

    def paxis(e, R, Z, psi):
        return jtor.ConstrainPaxisIp(e, 1e3, 2e5, 2.0).Jtor(R, Z, psi)

    def betap(e, R, Z, psi):
        return jtor.ConstrainBetapIp(e, 0.4, 2e5, 2.0).Jtor(R, Z, psi)

    def given(e, R, Z, psi):
        return jtor.ProfilesPprimeFfprime(lambda x: 1e4 * (1 - np.asarray(x, float)), lambda x: 0.3 * (1 - np.asarray(x, float)) ** 2, -2.0).Jtor(R, Z, psi)

    def start(e, R, Z, psi):
        n = freegs.Equilibrium(freegs.machine.TestTokamak(), Rmin=e.Rmin, Rmax=e.Rmax, Zmin=e.Zmin, Zmax=e.Zmax, nx=e.nx, ny=e.ny, psi=psi)
        n.solve(eqs.StubProfile(), Jtor=np.array(e.Jtor))
        return n.psi()

    def current(e, R, Z, psi):
        n = freegs.Equilibrium(freegs.machine.TestTokamak(), Rmin=e.Rmin, Rmax=e.Rmax, Zmin=e.Zmin, Zmax=e.Zmax, nx=e.nx, ny=e.ny)
        n.solve(eqs.StubProfile(), Jtor=psi * 1e6)
        return n.psi()

    def solver(e, R, Z, psi):
        return e.callSolver(psi, psi)

    def greens(e, R, Z, psi):
        return e.tokamak.calcPsiFromGreens(e.tokamak.createPsiGreens(R, Z)) + 0 * psi

    def fixed(e, R, Z, psi):
        p = np.zeros(e.R.shape)
        boundary.freeBoundary(e, psi, p)
        return p

    return dict(crit=crit, mask=mask, mask_b=mask_b, paxis=paxis, betap=betap, given=given, start=start, current=current, solver=solver, greens=greens, boundary=fixed)


GRID = ["crit", "mask", "mask_b", "paxis", "betap", "given", "start", "current", "solver", "greens", "boundary"]


def run_grid(case, ck):
    e = equilibrium(case["eq"])
    f = grid_functions()[case["f"]]
    R, Z, psi = np.array(e.R), np.array(e.Z), np.array(e.psi())
    want = np.asarray(f(e, R.copy(), Z.copy(), psi.copy()), float)
    for lp in LAYOUTS:
        for lr in LAYOUTS if case["all"] else ("C", lp):
            a, b, c = layouts(R)[lr], layouts(Z)[lr], layouts(psi)[lp]
            what = "%s with grid %s and flux %s" % (case["f"], lr, lp)
            got = np.asarray(f(e, a, b, c), float)
            ck.step()
            ck.same(got.shape, want.shape, what + ": shape")
            ck.close(got, want, what, rtol=0, atol=1e-7 * np.abs(want).max())
            ck.expect(np.array_equal(a, R) and np.array_equal(b, Z) and np.array_equal(c, psi), what + ": arguments were changed")
            ck.state(case, lp, lr)
    ck.trace()
    ck.outcome(case["f"], case["eq"])


# --- lists of points --------------------------------------------------------
def run_lists(case, ck):
    """Outlines, walls, limits and starting points as lists, tuples and arrays"""
    from freegs import polygons, quadrature, control
    from freegs.machine import Wall, Machine, RogowskiSensor
    from freegs.shaped_coil import ShapedCoil
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil
    from freegs.fieldtracer import FieldTracer

    pts = [(1.5, -0.4), (1.8, -0.35), (1.75, 0.1), (1.5, 0.05)]
    rs, zs = [p[0] for p in pts], [p[1] for p in pts]
    form = case["form"]

    def wrap(a):
        return {"list": list, "tuple": tuple, "array": np.array, "lists": lambda v: [list(x) if np.ndim(x) else x for x in v]}[form](a)

    P = wrap(pts)
    keep = repr(P)
    A = np.array([(0.95, -0.1), (1.3, 0.12)])
    ck.close(polygons.area(P), polygons.area(pts), "area", rtol=1e-12)
    ck.same(bool(polygons.clockwise(P)), bool(polygons.clockwise(pts)), "orientation")
    tri = polygons.triangulate(P)
    ck.close(sum(abs(polygons.area(t)) for t in tri), abs(polygons.area(pts)), "area of the triangles", rtol=1e-12)
    q = quadrature.polygon_quad(P)
    ck.close(np.array(q), np.array(quadrature.polygon_quad(pts)), "quadrature", rtol=1e-12)
    for C in (ShapedCoil,):
        ck.close(C(P, current=1e3).psi(A[:, 0], A[:, 1]), C(pts, current=1e3).psi(A[:, 0], A[:, 1]), "shaped coil", rtol=1e-12)
    for C in (FilamentCoil, MultiCoil):
        ck.close(C(wrap(rs), wrap(zs), current=1e3).psi(A[:, 0], A[:, 1]), C(rs, zs, current=1e3).psi(A[:, 0], A[:, 1]), C.__name__, rtol=1e-12)
    m = Machine([], Wall(wrap(rs), wrap(zs)))
    m0 = Machine([], Wall(rs, zs))
    ck.close(m.limit_points_R, m0.limit_points_R, "limit points", rtol=1e-12)
    ck.close(m.limit_points_Z, m0.limit_points_Z, "limit points", rtol=1e-12)
    ck.same(m == m0, True, "machines with the same wall")
    e = equilibrium("scripted")
    ts = FieldTracer(e).follow(wrap([1.1, 1.2]), wrap([0.0, 0.1]), np.linspace(0, 1.0, 3))
    t0 = FieldTracer(e).follow([1.1, 1.2], [0.0, 0.1], np.linspace(0, 1.0, 3))
    ck.close(ts, t0, "field lines", rtol=1e-9)
    import copy

    got = []
    for w in (wrap, list):
        d = copy.deepcopy(e)
        control.constrain(xpoints=w([(1.1, -0.6), (1.0, 0.7)]), isoflux=w([(1.1, -0.6, 1.0, 0.7)]), psivals=w([(1.0, 0.0, 0.02)]))(d)
        got.append(list(d.tokamak.getCurrents().values()))
    ck.close(got[0], got[1], "control currents", rtol=1e-9)
    s = [RogowskiSensor(w([0.5, 0.5, 1.5, 1.5]), w([-0.6, 0.6, 0.6, -0.6])) for w in (wrap, list)]
    for x in s:
        x.get_measure(e.tokamak, e)
    ck.close(s[0].measurement, s[1].measurement, "Rogowski measurement", rtol=1e-12)
    ck.same(repr(P), keep, "outline after use")
    ck.step(12)
    ck.state(case)
    ck.trace()
    ck.outcome(form)


def check(tier):
    q = tier == "quick"
    forms = list(SHAPES) + [[a, b] for a in LAYOUTS for b in LAYOUTS if not q or a == b or "C" in (a, b)]
    pts = [dict(owner=o, forms=forms[i::4]) for o in OWNERS for i in range(4)]
    prof = [dict(kind=k, form=f) for k in ("equilibrium", "paxis", "betap", "given", "functions") for f in XFORMS]
    grid = [dict(eq=e, f=f, all=not q) for e in ("scripted", "reversed", "solved") for f in GRID]
    return CheckDef(
        "C33",
        [
            Section("points", pts, run_points, "every evaluation of every coil kind, circuit, machine, loop and equilibrium x %d forms of arguments" % len(forms)),
            Section("profiles", prof, run_profiles, "every profile function x %d forms" % len(XFORMS)),
            Section("grids", grid, run_grid, "functions of the grid x memory layouts of the grid and of the flux"),
            Section("lists", [dict(form=f) for f in ("list", "tuple", "array", "lists")], run_lists, "outlines, walls, constraints and starting points as lists, tuples and arrays"),
        ],
        ["numbers in double precision or integers; positions to evaluate at are numbers or arrays (not lists), as documented"],
    )
