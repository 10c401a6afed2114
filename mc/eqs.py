"""Small equilibria used by several checks."""

import numpy as np
from . import ref


class StubProfile:
    """Profiles for a prescribed current; analytic p and f."""

    def __init__(self, f0=2.0, df=0.3, p0=1e3, J=None):
        self.f0, self.df, self.p0, self.J = f0, df, p0, J

    def Jtor(self, R, Z, psi, psi_bndry=None):
        return self.J(R, Z)

    def pprime(self, x):
        return -self.p0 * np.ones_like(np.asarray(x, dtype=float))

    def ffprime(self, x):
        x = np.asarray(x, dtype=float)
        return -self.df * (self.f0 + self.df * (1 - x))

    def pressure(self, x, out=None):
        return self.p0 * (1 - np.asarray(x, dtype=float))

    def fpol(self, x, out=None):
        return self.f0 + self.df * (1 - np.asarray(x, dtype=float))

    def fvac(self):
        return self.f0


def bump(R, Z, R0, Z0, a, I, e=1.6):
    """Smooth compact current density with total current about I"""
    s = ((R - R0) / a) ** 2 + ((Z - Z0) / (a * e)) ** 2
    f = np.where(s < 1, (1 - np.minimum(s, 1)) ** 3, 0.0)
    return I * f * 4 / (np.pi * a * a * e)


def diverted(nx=33, ny=33, Rmin=0.1, Rmax=2.0, Zmin=-1.0, Zmax=1.0, sign=1.0, wall=True, **kw):
    """A solved diverted equilibrium on the test machine"""
    import freegs

    tok = freegs.machine.TestTokamak()
    if not wall:
        tok.wall = None
    eq = freegs.Equilibrium(tok, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny, **kw)
    profiles = freegs.jtor.ConstrainPaxisIp(eq, 1e3, sign * 2e5, sign * 2.0)
    xp = [(1.1, -0.6), (1.1, 0.8)]
    con = freegs.control.constrain(xpoints=xp, isoflux=[(1.1, -0.6, 1.1, 0.8)])
    freegs.solve(eq, profiles, con)
    return eq, profiles, con


# --- scripted equilibria: a smooth current and given coils, no iteration
CONF = {
    # name: (upper X coil, lower X coil, vertical field coils, solenoid)
    "lower": (0.5, 1.0, -0.3, 0.0),
    "upper": (1.0, 0.5, -0.3, 0.0),
    "double": (0.9, 0.9, -0.3, 0.0),
    "none": (0.0, 0.0, -0.25, 0.0),
    "lowerS": (0.4, 1.1, -0.3, 0.3),
}
GRIDS = {
    "33x33": dict(Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=33, ny=33),
    "33x65": dict(Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=33, ny=65),
    "65x33": dict(Rmin=0.2, Rmax=1.9, Zmin=-1.1, Zmax=0.9, nx=65, ny=33),
    "65x65": dict(Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=65, ny=65),
    # little room around the plasma of "lower", whose axis is not near the centre
    "tight": dict(Rmin=0.58, Rmax=1.62, Zmin=-0.8, Zmax=0.52, nx=65, ny=65),
    # the plasma is on the inner side, the centre of the domain near or beyond its edge
    "inner": dict(Rmin=0.5, Rmax=2.2, Zmin=-1.0, Zmax=1.0, nx=65, ny=65),
    "17x33": dict(Rmin=0.2, Rmax=1.8, Zmin=-1.0, Zmax=1.0, nx=17, ny=33),
}


def rectangle(r0, r1, z0, z1):
    import freegs

    return freegs.machine.Wall([r0, r0, r1, r1], [z0, z1, z1, z0])


def scripted(conf="lower", grid="33x33", sign=1.0, wall=None, limited=False, R0=1.0, Z0=0.0, I=3e5, mirror=False, prof=None, shift=0.0, **kw):
    """Equilibrium with prescribed current and coil currents"""
    import freegs
    from freegs.machine import Machine
    from freegs.coil import Coil

    # shift: everything (coils, wall, domain, plasma) is moved up by this distance
    up, lo, vf, sol = CONF[conf]
    m = -1.0 if mirror else 1.0
    c = [Coil(1.0, 1.35 * m), Coil(1.0, -1.35 * m), Coil(2.4, 0.8 * m), Coil(2.4, -0.8 * m), Coil(0.1, 0.02 * m)]
    for k, f in zip(c, (up, lo, vf, vf, sol)):
        k.current = sign * f * I
        k.Z += shift
    if wall is not None and shift:
        wall = freegs.machine.Wall(wall.R, [z + shift for z in wall.Z])
    tok = Machine([(n, k) for n, k in zip(("XU", "XL", "VU", "VL", "S"), c)], wall)
    g = dict(GRIDS[grid])
    if mirror:
        g["Zmin"], g["Zmax"] = -g["Zmax"], -g["Zmin"]
    g["Zmin"] += shift
    g["Zmax"] += shift
    eq = freegs.Equilibrium(tok, check_limited=limited, **g, **kw)
    J = bump(eq.R, eq.Z, R0, Z0 * m + shift, 0.42, sign * I, e=1.45)
    if prof is None:
        prof = StubProfile(f0=sign * 2.0)
    eq.solve(prof, Jtor=J)
    return eq
