"""C32: a failure part-way leaves everything usable.

Faults are injected at every call of whatever the user supplies: profile
functions, solver, boundary condition, control, coils, file handles and plot
axes.  Each operation is first run without a fault to count the calls; it is
then run once (twice, in the histories) for every call which can fail.
"""

import copy
import io
import itertools
import numpy as np
from mc.core import CheckDef, Section, quiet
from mc.eqs import StubProfile, bump
from checks.c29 import look, compare


class Boom(Exception):
    pass


class Fuse:
    """Counts calls; raises at the armed one"""

    def __init__(self):
        self.n, self.at, self.log = 0, None, []

    def arm(self, at):
        self.n, self.at, self.log = 0, at, []

    def __call__(self, what):
        self.n += 1
        self.log.append(what)
        if self.n == self.at:
            raise Boom(what)

    def __deepcopy__(self, memo):
        return self


def wired(fuse, what, func):
    def call(*a, **k):
        fuse(what)
        return func(*a, **k)

    return call


class Profile(StubProfile):
    fuse = None

    def Jtor(self, R, Z, psi, psi_bndry=None):
        self.fuse("Jtor")
        w = 0.1 * (np.max(psi) - np.min(psi))
        return bump(R, Z, 1.0, 0.0, 0.42, 3e5) * (1.0 + w)

    def pprime(self, x):
        self.fuse("pprime")
        return StubProfile.pprime(self, x)

    def ffprime(self, x):
        self.fuse("ffprime")
        return StubProfile.ffprime(self, x)

    def pressure(self, x, out=None):
        self.fuse("pressure")
        return StubProfile.pressure(self, x)

    def fpol(self, x, out=None):
        self.fuse("fpol")
        return StubProfile.fpol(self, x)

    def fvac(self):
        self.fuse("fvac")
        return StubProfile.fvac(self)


def coil_class(fuse):
    from freegs.coil import Coil

    class Wired(Coil):
        def controlPsi(self, R, Z):
            fuse("coil psi")
            return Coil.controlPsi(self, R, Z)

        def controlBr(self, R, Z):
            fuse("coil Br")
            return Coil.controlBr(self, R, Z)

        def controlBz(self, R, Z):
            fuse("coil Bz")
            return Coil.controlBz(self, R, Z)

    return Wired


def machine(fuse, plain=False):
    from freegs.machine import Machine, Circuit, Wall, PoloidalFieldSensor, FluxLoopSensor
    from freegs.coil import Coil

    W = Coil if plain else coil_class(fuse)
    m = Machine(
        [
            ("X", Circuit([("XL", W(1.0, -1.35), 1.0), ("XU", Coil(1.0, 1.35), 0.5)])),
            ("V", Circuit([("VL", Coil(2.4, -0.8), 1.0), ("VU", W(2.4, 0.8), 1.0)])),
            ("S", W(0.1, 0.02)),
        ],
        Wall([0.4, 0.4, 1.6, 1.6], [-0.9, 0.9, 0.9, -0.9]),
        sensors=[PoloidalFieldSensor(1.5, 0.2, 0.4, name="b"), FluxLoopSensor(0.6, -0.3, name="f")],
    )
    m["X"].current, m["V"].current, m["S"].current = 3e5, -9e4, 1e3
    return m


def named_boundary(name):
    from freegs import boundary

    if name == "user":
        def user(eq, Jtor, psi):
            psi[0, :] = 0.01
            psi[-1, :] = -0.02
            psi[:, 0] = 0.03
            psi[:, -1] = 0.0

        return user
    return getattr(boundary, name)


def make(fuse, bnd="fixedBoundary", order=2, nx=17, ny=17, limited=False, vcycle=False, plain=False):
    import freegs

    fuse.arm(None)
    eq = freegs.Equilibrium(
        machine(fuse, plain), Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=nx, ny=ny,
        order=order, boundary=named_boundary(bnd) if plain else wired(fuse, "boundary", named_boundary(bnd)), check_limited=limited,
    )
    if vcycle:
        eq.setSolverVcycle(nlevels=2, ncycle=2, niter=5, direct=True)
    eq.setSolver(wired(fuse, "solver", eq._solver))
    prof = Profile()
    prof.fuse = fuse
    eq.solve(prof)
    return eq, prof


def consistent(ck, eq, what):
    """The flux on the grid, its interpolation and the field belong together"""
    v = eq.psiRZ(eq.R, eq.Z)
    ck.close(v, eq.psi(), what + ": flux at the grid points", rtol=0, atol=1e-9 * (np.abs(eq.psi()).max() + 1e-3))
    ck.close(eq.psi(), eq.plasma_psi + eq.tokamak.psi(eq.R, eq.Z), what + ": plasma and coils add up", rtol=0, atol=1e-9 * (np.abs(eq.psi()).max() + 1e-3))


def steady(ck, eq, before, what, deep=True):
    compare(ck, look(eq, deep=deep), before, what, exact=True)


def arrays(eq):
    return {k: np.array(getattr(eq, k)) for k in ("R", "Z", "plasma_psi", "Jtor")}


def fails(ck, fuse, at, func, what):
    """Run with a fault; it must reach the caller"""
    fuse.arm(at)
    try:
        func()
    except Boom:
        fuse.arm(None)
        return True
    fuse.arm(None)
    ck.expect(False, what + ": the error was swallowed")


def count(fuse, func):
    fuse.arm(None)
    r = func()
    n = fuse.n
    log = list(fuse.log)
    fuse.arm(None)
    return r, n, log


# --- linear solves ----------------------------------------------------------
def change(eq, op):
    m = eq.tokamak
    if op == "current":
        m["S"].current += 5e4
        m["X"].current *= 1.01
    elif op == "limited":
        eq.check_limited = not eq.check_limited
    elif op == "array":
        eq.plasma_psi = eq.plasma_psi * 1.01
        eq._updatePlasmaPsi(eq.plasma_psi)


def run_linear(case, ck):
    fuse = Fuse()
    opt = dict(case["opt"])
    eq, prof = make(fuse, **opt)
    twin, prof2 = make(fuse, **opt)
    change(eq, case["op"])
    change(twin, case["op"])
    given = case["given"]

    def kw(e):
        if given == "Jtor":
            return dict(Jtor=bump(e.R, e.Z, 1.02, 0.05, 0.4, 2e5))
        if given == "psi":
            return dict(psi=e.psi() * 1.5)
        if given == "bndry":
            return dict(psi_bndry=0.01)
        return {}

    # the nominal run tells how many calls can fail
    probe = copy.deepcopy(twin)
    _, n, log = count(fuse, lambda: probe.solve(prof2, **kw(probe)))
    ck.expect(n >= 2, "the solve uses boundary and solver: %r" % (log,))
    for at in case["faults"]:
        k = at if at > 0 else n + 1 + at
        if k < 1 or k > n:
            continue
        what = "%s fails in the solve" % log[k - 1]
        args = kw(eq)
        held = {a: np.array(v) for a, v in args.items()}
        before, arr = look(eq, deep=False), arrays(eq)
        fails(ck, fuse, k, lambda: eq.solve(prof, **args), what)
        now = look(eq, deep=False)
        for skip in ("bndry", "limited"):
            # found again for the current flux
            before.pop(skip, None)
            now.pop(skip, None)
        compare(ck, now, before, what, exact=True)
        for a, v in arr.items():
            ck.expect(np.array_equal(getattr(eq, a), v), "%s: %s has changed" % (what, a))
        for a, v in held.items():
            ck.expect(np.array_equal(args[a], v), "%s: argument %s was changed" % (what, a))
        consistent(ck, eq, what)
        ck.step()
        ck.state(case, k)
        ck.outcome(log[k - 1], given)
    for i in range(2):
        eq.solve(prof, **kw(eq))
        twin.solve(prof2, **kw(twin))
        ck.step()
        compare(ck, look(eq), look(twin), "solve %d after failures %r" % (i, case["faults"]), exact=True)
    consistent(ck, eq, "after the solve")
    ck.trace()


# --- nonlinear solves -------------------------------------------------------
def start(fuse, kind):
    import freegs
    from freegs import boundary

    m = freegs.machine.TestTokamak()
    eq = freegs.Equilibrium(m, Rmin=0.1, Rmax=2.0, Zmin=-1.0, Zmax=1.0, nx=33, ny=33, order=2, boundary=wired(fuse, "boundary", boundary.freeBoundaryHagenow if kind == "hagenow" else boundary.freeBoundary))
    eq.setSolver(wired(fuse, "solver", eq._solver))
    if kind == "betap":
        prof = freegs.jtor.ConstrainBetapIp(eq, 0.4, 2e5, 2.0)
    else:
        prof = freegs.jtor.ConstrainPaxisIp(eq, 1e3, 2e5, 2.0)
    prof.Jtor = wired(fuse, "Jtor", prof.Jtor)
    con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.8)])
    return eq, prof, wired(fuse, "control", con)


def full(eq, prof, con, kind, maxits=400):
    import freegs

    freegs.solve(eq, prof, con, rtol=1e-5, blend=0.3 if kind == "blend" else 0.0, check_limited=kind == "limited", maxits=maxits)


_NOMINAL = {}


def nominal(kind):
    """Final state and the names of the calls"""
    if kind not in _NOMINAL:
        fuse = Fuse()
        eq, prof, con = start(fuse, kind)
        with quiet():
            _, n, log = count(fuse, lambda: full(eq, prof, con, kind))
        _NOMINAL[kind] = (look(eq), n, log)
    return _NOMINAL[kind]


def run_nonlinear(case, ck):
    kind = case["kind"]
    want, n, log = nominal(kind)
    fuse = Fuse()
    eq, prof, con = start(fuse, kind)
    for part in case["at"]:
        k = 1 + int(part * (n - 1)) if isinstance(part, float) else part
        if k > n:
            ck.note("beyond the last call")
            continue
        m = fuse
        what = "call %d (%s) fails in the nonlinear solve" % (k, log[k - 1])
        m.arm(k)
        try:
            full(eq, prof, con, kind)
        except Boom:
            pass
        else:
            # a second solve starts from where the first stopped and may need fewer calls
            ck.expect(m.n < k, what + ": the error was swallowed")
        fuse.arm(None)
        consistent(ck, eq, what)
        ck.step()
        ck.state(case, k)
        ck.outcome(kind, log[k - 1])
    full(eq, prof, con, kind)
    got = look(eq)
    ck.step()
    for a in want:
        if a == "sensors":
            continue
        x, y = np.array(got[a]), np.array(want[a])
        ck.close(x, y, "%s when solving again after failures at %r" % (a, case["at"]), rtol=0, atol=2e-3 * max(1e-12, np.abs(y).max() if y.size else 0.0))
    ck.trace()


# --- requests which only read ----------------------------------------------
def readers():
    import freegs
    from freegs import geqdsk, equilibrium, fieldtracer, plotting, control, critical
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    x = np.array([0.2, 0.5, 0.9])

    def write(eq):
        s = io.StringIO()
        geqdsk.write(eq, s)
        return np.array([float(len(s.getvalue()))])

    def dump(eq):
        import tempfile
        import os

        with tempfile.TemporaryDirectory() as d:
            with freegs.OutputFile(os.path.join(d, "a.h5"), "w") as f:
                f.write_equilibrium(eq)
            return np.array([1.0])

    def plot(eq):
        fig = plt.figure()
        try:
            eq.plot(axis=fig.add_subplot(111), show=False)
        finally:
            plt.close(fig)
        return np.array([1.0])

    def forces(eq):
        out = []
        for v in eq.getForces().values():
            out += [y for w in (v.values() if isinstance(v, dict) else [v]) for y in np.ravel(w)]
        return np.array(out)

    def vacuum_forces(eq):
        out = []
        for v in eq.tokamak.getForces().values():
            out += [y for w in (v.values() if isinstance(v, dict) else [v]) for y in np.ravel(w)]
        return np.array(out)

    P = (np.array([0.7, 1.2]), np.array([0.1, -0.3]))
    return {
        "q": lambda e: e.q(x),
        "q all": lambda e: np.ravel(e.q()),
        "tor_flux": lambda e: np.ravel(e.tor_flux(x)),
        "rhotor": lambda e: np.ravel(e.rhotor(x)),
        "pprime": lambda e: e.pprime(x),
        "ffprime": lambda e: e.ffprime(x),
        "pressure": lambda e: e.pressure(x),
        "fpol": lambda e: e.fpol(x),
        "fvac": lambda e: e.fvac(),
        "Btor": lambda e: e.Btor(*P),
        "Btot": lambda e: e.Btot(*P),
        "Br": lambda e: e.Br(*P),
        "Bz": lambda e: e.Bz(*P),
        "psiRZ": lambda e: e.psiRZ(*P),
        "psiNRZ": lambda e: e.psiNRZ(*P),
        "poloidalBeta": lambda e: e.poloidalBeta(),
        "poloidalBeta2": lambda e: e.poloidalBeta2(),
        "poloidalBeta3": lambda e: e.poloidalBeta3(),
        "toroidalBeta": lambda e: e.toroidalBeta(),
        "totalBeta": lambda e: e.totalBeta(),
        "betaN": lambda e: e.betaN(npoints=24),
        "pressure_ave": lambda e: e.pressure_ave(),
        "w_th": lambda e: e.w_th(),
        "qcyl": lambda e: e.qcyl(),
        "internalInductance1": lambda e: e.internalInductance1(npoints=24),
        "internalInductance2": lambda e: e.internalInductance2(),
        "internalInductance3": lambda e: e.internalInductance3(npoints=24),
        "forces": forces,
        "vacuum forces": vacuum_forces,
        "printForces": lambda e: e.printForces() or 0.0,
        "geqdsk": write,
        "dump": dump,
        "plot": plot,
        "trace": lambda e: fieldtracer.FieldTracer(e).follow([1.1, 1.2], [0.0, 0.1], np.linspace(0, 1.0, 3)),
        "responses": lambda e: np.array(e.tokamak.controlPsi(*P) + e.tokamak.controlBr(*P) + e.tokamak.controlBz(*P)),
        "copy": lambda e: equilibrium.newDomain(e, Rmin=0.25).psi(),
        "refined": lambda e: equilibrium.refine(e).psi(),
        "coarsened": lambda e: equilibrium.coarsen(e).psi(),
        "safety": lambda e: np.ravel(critical.find_safety(e, npsi=4, ntheta=16)),
    }


READERS = ["q", "q all", "tor_flux", "rhotor", "pprime", "ffprime", "pressure", "fpol", "fvac", "Btor", "Btot", "Br", "Bz", "psiRZ", "psiNRZ",
           "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta", "totalBeta", "betaN", "pressure_ave", "w_th", "qcyl",
           "internalInductance1", "internalInductance2", "internalInductance3", "forces", "vacuum forces", "printForces", "geqdsk",
           "dump", "plot", "trace", "responses", "copy", "refined", "coarsened", "safety"]


def points(n, cap):
    """Calls at which to fail: all, or (long runs) the first and last ones and some between"""
    if n <= cap:
        return list(range(1, n + 1))
    h = cap // 3
    mid = [1 + (n - 1) * i // (h + 1) for i in range(1, h + 1)]
    return sorted(set(list(range(1, h + 1)) + mid + list(range(n - h + 1, n + 1))))


def run_read(case, ck):
    fuse = Fuse()
    eq, prof = make(fuse, bnd="freeBoundary", nx=33, ny=33, limited=case["limited"])
    ops = readers()
    first, second = ops[case["op"]], ops[case["then"]]
    fuse.arm(None)
    want2 = np.ravel(second(eq))
    want, n, log = count(fuse, lambda: np.ravel(first(eq)))
    want = np.asarray(want, dtype=float)
    if n == 0:
        ck.note("uses nothing which can fail")
    before, arr = look(eq), arrays(eq)
    for k in points(n, case["cap"]):
        what = "call %d of %d (%s) fails in %s" % (k, n, log[k - 1], case["op"])
        fails(ck, fuse, k, lambda: first(eq), what)
        steady(ck, eq, before, what)
        for a, v in arr.items():
            ck.expect(np.array_equal(getattr(eq, a), v), "%s: %s has changed" % (what, a))
        ck.step()
        ck.state(case, k)
        ck.outcome(case["op"], log[k - 1])
    got = np.asarray(np.ravel(first(eq)), dtype=float)
    ck.expect(np.array_equal(got, want, equal_nan=True), "%s after failures is %r, expected %r" % (case["op"], got[:6], want[:6]))
    got = np.asarray(np.ravel(second(eq)), dtype=float)
    ck.expect(np.array_equal(got, want2, equal_nan=True), "%s after failures in %s is %r, expected %r" % (case["then"], case["op"], got[:6], want2[:6]))
    consistent(ck, eq, case["op"])
    ck.trace()


# --- control ----------------------------------------------------------------
def controls(eq):
    from freegs import control

    xp, iso = [(1.1, -0.6)], [(1.1, -0.6, 1.1, 0.7)]
    return {
        "constrain": lambda: control.constrain(xpoints=xp, isoflux=iso),
        "psivals": lambda: control.constrain(psivals=[(1.0, 0.0, 0.1)]),
        "limits": lambda: control.constrain(xpoints=xp, current_lims=[(-1e6, 1e6)] * 3),
        "total": lambda: control.constrain(xpoints=xp, max_total_current=2e6),
        "ConstrainPsi2D": lambda: control.ConstrainPsi2D(0.98 * eq.psi()),
        "ConstrainPsiNorm2D": lambda: control.ConstrainPsiNorm2D(0.98 * eq.psiN()),
    }


CONTROLS = ["constrain", "psivals", "limits", "total", "ConstrainPsi2D", "ConstrainPsiNorm2D"]


def run_control(case, ck):
    fuse = Fuse()
    eq, prof = make(fuse, bnd="freeBoundary", nx=33, ny=33)
    twin, _ = make(fuse, bnd="freeBoundary", nx=33, ny=33)
    # the responses may be kept by a control object, so use fresh ones
    fresh = controls(copy.deepcopy(eq))[case["control"]]
    _, n, log = count(fuse, lambda: fresh()(copy.deepcopy(twin)))
    con, other = fresh(), fresh()
    before, arr = look(eq), arrays(eq)
    for k in points(n, case["cap"]):
        what = "call %d of %d (%s) fails in %s" % (k, n, log[k - 1], case["control"])
        obj = con if case["reuse"] else fresh()
        fuse.arm(k)
        try:
            obj(eq)
        except Boom:
            pass
        else:
            ck.expect(False, what + ": the error was swallowed")
        fuse.arm(None)
        steady(ck, eq, before, what)
        ck.step()
        ck.state(case, k)
    con(eq)
    other(twin)
    compare(ck, look(eq), look(twin), "%s after failures" % case["control"], exact=True)
    eq.solve(prof)
    twin.solve(prof)
    compare(ck, look(eq), look(twin), "solve after %s" % case["control"], exact=True)
    ck.trace()
    ck.outcome(case["control"], n > 0)


# --- files and plots --------------------------------------------------------
class Handle:
    """A file on a disk which is full after some writes"""

    def __init__(self, fuse, text=""):
        self.fuse, self.s = fuse, io.StringIO(text)

    def write(self, t):
        self.fuse("write")
        return self.s.write(t)

    def readline(self, *a):
        self.fuse("read")
        return self.s.readline(*a)

    def read(self, *a):
        self.fuse("read")
        return self.s.read(*a)

    def __iter__(self):
        return self

    def __next__(self):
        t = self.readline()
        if not t:
            raise StopIteration
        return t


def run_write(case, ck):
    from freegs import geqdsk

    fuse = Fuse()
    eq, prof = make(fuse, bnd="freeBoundary", nx=33, ny=33)
    s = io.StringIO()
    geqdsk.write(eq, s, label="X")
    off = Fuse()
    h = Handle(off)
    _, n, log = count(off, lambda: geqdsk.write(eq, h, label="X"))
    ck.same(h.s.getvalue(), s.getvalue(), "text written to the handle")
    before, arr = look(eq), arrays(eq)
    pts = points(n, case["cap"])
    for k in pts[case["part"] :: 4]:
        what = "write %d of %d fails" % (k, n)
        fails(ck, off, k, lambda: geqdsk.write(eq, Handle(off), label="X"), what)
        steady(ck, eq, before, what)
        t = io.StringIO()
        geqdsk.write(eq, t, label="X")
        ck.same(t.getvalue() == s.getvalue(), True, what + ": the next file is the same")
        ck.step()
        ck.state(case, k)
    ck.trace()
    ck.outcome("write")


class Bad:
    """A coil which cannot be stored"""


def run_store(case, ck):
    """Storing a machine with a coil which cannot be stored; then the file without"""
    import os
    import tempfile
    import freegs
    from freegs.coil import Coil

    fuse = Fuse()
    eq, prof = make(fuse, bnd="freeBoundary", nx=33, ny=33, plain=True)

    for _ in range(1):
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "a.h5")

            class Broken(Coil):
                def to_numpy_array(self):
                    raise Boom("to_numpy_array")

            coils = list(eq.tokamak.coils)
            good = list(coils)
            coils.insert(case["pos"], ("B", Broken(1.9, 1.0, current=1.0)))
            eq.tokamak.coils = coils
            eq._pgreen = eq.tokamak.createPsiGreens(eq.R, eq.Z)
            before, arr = look(eq), arrays(eq)
            raised = False
            try:
                with freegs.OutputFile(p, "w") as f:
                    f.write_equilibrium(eq)
            except Boom:
                raised = True
            ck.expect(raised, "the error of a coil which cannot be stored was swallowed")
            steady(ck, eq, before, "coil %d cannot be stored" % case["pos"])
            eq.tokamak.coils = good
            eq._pgreen = eq.tokamak.createPsiGreens(eq.R, eq.Z)
            q = os.path.join(d, "b.h5") if case["other"] else p
            with freegs.OutputFile(q, "w") as f:
                f.write_equilibrium(eq)
            with freegs.OutputFile(q, "r") as f:
                back = f.read_equilibrium()
            ck.close(back.psi(), eq.psi(), "flux from the file written afterwards", rtol=1e-9, atol=1e-12)
            ck.same([n for n, _ in back.tokamak.coils], [n for n, _ in good], "coils from the file written afterwards")
            ck.step(3)
    ck.state(case)
    ck.trace()
    ck.outcome("store", case["pos"])


class Axis:
    """Plot axis which fails at some call"""

    def __init__(self, fuse, axis):
        object.__setattr__(self, "_f", fuse)
        object.__setattr__(self, "_a", axis)

    def __getattr__(self, name):
        v = getattr(self._a, name)
        return wired(self._f, name, v) if callable(v) else v


def run_plot(case, ck):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from freegs import control, plotting

    fuse, off = Fuse(), Fuse()
    eq, prof = make(fuse, bnd="freeBoundary", nx=33, ny=33, limited=case["limited"])
    con = control.constrain(xpoints=[(1.1, -0.6)], isoflux=[(1.1, -0.6, 1.1, 0.7)])

    def draw():
        fig = plt.figure()
        try:
            a = Axis(off, fig.add_subplot(111))
            if case["what"] == "equilibrium":
                eq.plot(axis=a, show=False)
            elif case["what"] == "machine":
                eq.tokamak.plot(axis=a, show=False)
            elif case["what"] == "control":
                con.plot(axis=a, show=False)
        finally:
            plt.close(fig)

    before, arr = look(eq), arrays(eq)
    _, n, log = count(off, draw)
    steady(ck, eq, before, "plot of %s" % case["what"])
    for k in range(1, n + 1):
        what = "%s fails in a plot of %s" % (log[k - 1], case["what"])
        fails(ck, off, k, draw, what)
        steady(ck, eq, before, what)
        ck.step()
        ck.state(case, k)
        ck.outcome(case["what"], log[k - 1])
    _, m, log2 = count(off, draw)
    ck.same(log2, log, "calls in the plot after failures")
    ck.trace()


def check(tier):
    q = tier == "quick"
    opts = []
    for b in ("fixedBoundary", "freeBoundary", "freeBoundaryHagenow", "user"):
        for o in (2, 4):
            opts.append(dict(bnd=b, order=o))
    opts += [dict(bnd="fixedBoundary", vcycle=True), dict(bnd="freeBoundary", limited=True), dict(bnd="freeBoundary", nx=17, ny=33)]
    lin = []
    depth = (1, 2) if q else (1, 2, 3)
    for o in opts:
        for g in ("none", "Jtor", "psi", "bndry"):
            for op in ("none", "current", "limited", "array"):
                for d in depth:
                    if q and op != "none" and (d == 2 or o["bnd"] == "freeBoundaryHagenow" and g != "none"):
                        continue
                    for f in itertools.product((1, 2, 3, 4), repeat=d):
                        lin.append(dict(opt=o, given=g, op=op, faults=list(f)))
    non = []
    for kind in ("plain", "blend", "limited", "betap", "hagenow"):
        one = list(range(1, 18)) if q else list(range(1, 60))
        if q and kind != "plain":
            one = one[:7]
        non += [dict(kind=kind, at=[k]) for k in one]
        non += [dict(kind=kind, at=[f]) for f in (0.5, 0.75, 1.0)]
        if not q:
            non += [dict(kind=kind, at=[a, b]) for a in range(2, 10) for b in range(1, 10)]
        elif kind == "plain":
            non += [dict(kind=kind, at=[a, b]) for a in (3, 4, 5) for b in (2, 3, 4)]
    read = []
    for i, a in enumerate(READERS):
        then = [READERS[(i + 1) % len(READERS)]] if q else READERS
        for b in then:
            for lim in (False, True):
                read.append(dict(op=a, then=b, limited=lim, cap=12 if q else 60))
    return CheckDef(
        "C32",
        [
            Section("linear solves", lin, run_linear, "all boundaries, orders, arguments and changes before; all sequences of up to two (thorough three) failing calls"),
            Section("control", [dict(control=c, reuse=r, cap=40 if q else 400) for c in CONTROLS for r in (False, True)], run_control, "every call of a coil failing in the control"),
            Section("reading", read, run_read, "every request which reads, failing at every call (of long ones the first, last and some between)"),
            Section("plots", [dict(what=w, limited=l) for w in ("equilibrium", "machine", "control") for l in (False, True)], run_plot, "failure of every call to the plot axis"),
            Section("writes", [dict(part=i, cap=60 if q else 100000) for i in range(4)], run_write, "failure of writes to the file"),
            Section("stores", [dict(pos=i, other=o) for i in range(4) for o in (False, True)], run_store, "every position of a coil which cannot be stored"),
            Section("nonlinear solves", non, run_nonlinear, "failures at each call of control, Jtor, boundary and solver"),
        ],
        ["what psi_bndry and the profiles report after a failed solve is left open; a failed nonlinear solve may stop at any iteration"],
    )
