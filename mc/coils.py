"""Coil kinds: how to build them with freegs, and what they should produce.

A model coil is a dict: kind, R, Z (offset of the whole cross-section from its
initial place), current, turns, control.  `filaments(model)` gives the loops
(R, Z, weight for unit current) that the coil stands for.
"""

import functools
import numpy as np
from . import ref

RECT = [(0.95, -0.05), (0.95, 0.05), (1.05, 0.05), (1.05, -0.05)]
TRI = [(0.9, -0.05), (1.1, -0.05), (1.0, 0.1)]
LSHAPE = [(0.9, -0.1), (1.1, -0.1), (1.1, 0.0), (1.0, 0.0), (1.0, 0.1), (0.9, 0.1)]
FILR = [0.96, 1.0, 1.05, 1.02]
FILZ = [-0.04, 0.03, 0.05, -0.02]
PGRID = (np.linspace(0.1, 2.5, 61), np.linspace(-1.5, 1.5, 76))

# kind -> (movable, default turns, accuracy of the flux against area averages)
KINDS = {
    "point": dict(move=True, turns=1),
    "rect": dict(move=True, turns=1, shape=RECT, n=6),
    "tri1": dict(move=True, turns=2, shape=TRI, n=1),
    "L3": dict(move=True, turns=1, shape=LSHAPE, n=3),
    "fil": dict(move=True, turns=1),
    "filshape": dict(move=True, turns=2),
    "filone": dict(move=True, turns=1),
    "filauto": dict(move=True, turns=1, shape=RECT),
    "multi": dict(move=True, turns=3),
    "multilist": dict(move=True, turns=4),
    "mirror+": dict(move=True, turns=2),
    "mirror-": dict(move=True, turns=4),
    "precalc": dict(move=False, turns=1),
    "solenoid": dict(move=False, turns=None),
}


@functools.lru_cache(None)
def _tri_rule():
    # exact to high order: product Gauss rule on the unit triangle
    x, w = np.polynomial.legendre.leggauss(4)
    x, w = (x + 1) / 2, w / 2
    pts = []
    for i in range(4):
        for j in range(4):
            u, v = x[i], x[j]
            pts.append((u * (1 - v), v, w[i] * w[j] * (1 - v) * 2))
    return pts


def _fan(tri):
    (a, b, c) = [np.array(p, dtype=float) for p in tri]
    for s, t, w in _tri_rule():
        p = a + s * (b - a) + t * (c - a)
        yield p[0], p[1], w


def area_average(pieces):
    """pieces: list of triangles"""
    tot = sum(abs(ref.shoelace(t)) for t in pieces)
    out = []
    for t in pieces:
        f = abs(ref.shoelace(t)) / tot
        out += [(r, z, w * f) for r, z, w in _fan(t)]
    return out


PIECES = {
    "rect": [[RECT[0], RECT[1], RECT[2]], [RECT[0], RECT[2], RECT[3]]],
    "tri1": [TRI],
    "L3": [
        [(0.9, -0.1), (1.1, -0.1), (1.1, 0.0)],
        [(0.9, -0.1), (1.1, 0.0), (0.9, 0.0)],
        [(0.9, 0.0), (1.0, 0.0), (1.0, 0.1)],
        [(0.9, 0.0), (1.0, 0.1), (0.9, 0.1)],
    ],
    "filauto": [[RECT[0], RECT[1], RECT[2]], [RECT[0], RECT[2], RECT[3]]],
}


def base_filaments(kind):
    if kind == "point":
        return [(1.0, 0.0, 1.0)]
    if kind == "tri1":
        # one point per triangle: the centroid
        return [(1.0, 0.0, 1.0)]
    if kind in PIECES:
        return area_average(PIECES[kind])
    if kind in ("fil", "filshape"):
        return [(r, z, 0.25) for r, z in zip(FILR, FILZ)]
    if kind == "filone":
        return [(1.02, 0.01, 1.0)]
    if kind == "multi":
        return [(1.0, 0.0, 1.0)]
    if kind in ("multilist", "mirror-"):
        return [(r, z, 0.25) for r, z in zip(FILR, FILZ)]
    if kind == "mirror+":
        return [(1.0, 0.6, 1.0)]
    raise KeyError(kind)


# height at which a kind is placed initially (mirrored ones away from zero)
Z0 = {"mirror-": 0.5}


def tolerance(kind):
    """(flux, field) relative accuracy against the exact filaments"""
    return {
        "rect": (1e-5, 2e-3),
        "L3": (2e-3, 1e-2),
        "filauto": (4e-2, 8e-2),
        "precalc": (1e-4, 2e-3),
    }.get(kind, (1e-8, 2e-3))


def model(kind, current=0.0, turns=None, control=True, dR=0.0, dZ=0.0):
    if turns is None:
        turns = KINDS[kind]["turns"]
    return dict(kind=kind, current=current, turns=turns, control=control, dR=dR, dZ=dZ)


def filaments(m):
    """Loops which the coil stands for, weights for unit current"""
    k, dR, dZ, N = m["kind"], m["dR"], m["dZ"], m["turns"]
    if k == "solenoid":
        return [(0.4, z, 1.0) for z in np.linspace(-0.5, 0.7, 4)]
    if k == "precalc":
        return [(1.0, 0.0, float(N))]
    z0 = Z0.get(k, 0.0)
    base = [(r + dR, z + z0 + dZ, w * N) for r, z, w in base_filaments(k)]
    if k == "mirror+":
        base = base + [(r, -z, w) for r, z, w in base]
    if k == "mirror-":
        base = base + [(r, -z, -0.5 * w) for r, z, w in base]
    return base


def outline(m):
    k = m["kind"]
    sh = {"rect": RECT, "tri1": TRI, "L3": LSHAPE, "filshape": RECT, "filauto": RECT, "precalc": RECT}.get(k)
    if sh is None:
        return None
    return [(r + m["dR"], z + m["dZ"]) for r, z in sh]


def build(m):
    """The coil built directly in the state of the model"""
    from freegs import machine
    from freegs.coil import Coil
    from freegs.shaped_coil import ShapedCoil
    from freegs.filament_coil import FilamentCoil
    from freegs.multi_coil import MultiCoil
    from freegs.pre_calc_coil import PreCalcCoil

    k, dR, dZ = m["kind"], m["dR"], m["dZ"]
    kw = dict(current=m["current"], control=m["control"])
    N = m["turns"]
    sh = lambda s: [(r + dR, z + dZ) for r, z in s]
    rs = [r + dR for r in FILR]
    zs = [z + dZ + Z0.get(k, 0.0) for z in FILZ]
    if k == "point":
        return Coil(1.0 + dR, 0.0 + dZ, turns=N, **kw)
    if k in ("rect", "tri1", "L3"):
        return ShapedCoil(sh(KINDS[k]["shape"]), turns=N, npoints=KINDS[k]["n"], **kw)
    if k == "fil":
        return FilamentCoil(rs, zs, turns=N, **kw)
    if k == "filshape":
        return FilamentCoil(rs, zs, shape=sh(RECT), turns=N, **kw)
    if k == "filone":
        return FilamentCoil(1.02 + dR, 0.01 + dZ, turns=N, **kw)
    if k == "filauto":
        return FilamentCoil(shape=sh(RECT), Nfils=30, turns=N, **kw)
    if k == "multi":
        return MultiCoil(1.0 + dR, 0.0 + dZ, turns=N, **kw)
    if k == "multilist":
        c = MultiCoil(rs, zs, **kw)
    elif k == "mirror+":
        return MultiCoil(1.0 + dR, 0.6 + dZ, turns=N, mirror=True, **kw)
    elif k == "mirror-":
        c = MultiCoil(rs, zs, mirror=True, polarity=[1.0, -0.5], **kw)
    elif k == "precalc":
        Rg, Zg = np.meshgrid(*PGRID)
        g = _precalc_maps()
        return PreCalcCoil(sh(RECT), Rg, Zg, g[1], g[2], g[0], turns=N, **kw)
    elif k == "solenoid":
        return machine.Solenoid(0.4, -0.5, 0.7, 4, **kw)
    if N != len(rs):
        c.turns = N
    return c


@functools.lru_cache(None)
def _precalc_maps():
    Rg, Zg = np.meshgrid(*PGRID)
    p, br, bz = ref.loop(1.0, 0.0, Rg + 1e-3, Zg + 1e-3, n=256)
    return p, br, bz


POINTS = [(0.35, 0.2), (1.6, 0.9), (2.1, -0.7)]


@functools.lru_cache(None)
def _ref_unit(kind, turns, dR, dZ, pts):
    m = model(kind, turns=turns, dR=dR, dZ=dZ)
    R = np.array([p[0] for p in pts])
    Z = np.array([p[1] for p in pts])
    if kind == "precalc":
        return turns * np.array(ref.loop(1.0, 0.0, R + 1e-3, Z + 1e-3, n=1024))
    return ref.filaments(tuple(filaments(m)), R, Z)


def unit(m, pts=tuple(POINTS)):
    """(psi, Br, Bz) for unit current at the points, from the reference"""
    t = m["turns"] if m["turns"] is not None else 1
    return _ref_unit(m["kind"], t, round(m["dR"], 9), round(m["dZ"], 9), tuple(pts))


def compare_fields(ck, get, want, what, tol, scale=None):
    """get: (psi, Br, Bz) from the code, want: reference; arrays over points"""
    p, br, bz = [np.asarray(x, dtype=float) for x in want]
    B = np.hypot(br, bz)
    ck.close(get[0], p, "flux " + what, rtol=0, atol=tol[0] * np.abs(p).max() + 1e-18)
    ck.close(get[1], br, "Br " + what, rtol=0, atol=tol[1] * B.max() + 1e-18)
    ck.close(get[2], bz, "Bz " + what, rtol=0, atol=tol[1] * B.max() + 1e-18)
