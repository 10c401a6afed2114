"""Reference models, written independently of freegs."""

import numpy as np

MU0 = 4e-7 * np.pi
_PHI = None


def _phi(n):
    return (np.arange(n) + 0.5) * (2 * np.pi / n)


def loop(Rc, Zc, R, Z, n=2048):
    """(psi, Br, Bz) of a unit current loop, from the vector potential integral

    A = mu0 Rc/(4 pi) int cos(phi) / D dphi,   psi = R A
    with the periodic midpoint rule, which converges exponentially.
    """
    R = np.asarray(R, dtype=float)
    Z = np.asarray(Z, dtype=float)
    R, Z = np.broadcast_arrays(R, Z)
    c = np.cos(_phi(n))
    r = R[..., None]
    dz = (Z - Zc)[..., None]
    D2 = Rc**2 + r**2 + dz**2 - 2 * r * Rc * c
    D = np.sqrt(D2)
    D3 = D2 * D
    f = MU0 * Rc / (4 * np.pi) * (2 * np.pi / n)
    A = f * np.sum(c / D, axis=-1)
    psi = R * A
    dAdz = f * np.sum(-c * dz / D3, axis=-1)
    dAdr = f * np.sum(-c * (r - Rc * c) / D3, axis=-1)
    Br = -dAdz
    with np.errstate(all="ignore"):
        Bz = A / R + dAdr
    return psi, Br, Bz


def filaments(fils, R, Z):
    """fils: list of (R, Z, weight)"""
    tot = None
    for rf, zf, w in fils:
        v = np.array(loop(rf, zf, R, Z)) * w
        tot = v if tot is None else tot + v
    return tot if tot is not None else np.zeros((3,) + np.shape(R))


def shoelace(poly):
    """Signed area, positive anticlockwise in the (first, second) plane."""
    a = 0.0
    n = len(poly)
    for i in range(n):
        x1, y1 = poly[i]
        x2, y2 = poly[(i + 1) % n]
        a += x1 * y2 - x2 * y1
    return 0.5 * a


def centroid(poly):
    a = shoelace(poly)
    cx = cy = 0.0
    n = len(poly)
    for i in range(n):
        x1, y1 = poly[i]
        x2, y2 = poly[(i + 1) % n]
        w = x1 * y2 - x2 * y1
        cx += (x1 + x2) * w
        cy += (y1 + y2) * w
    return cx / (6 * a), cy / (6 * a)


def poly_moment(poly, p, q):
    """Integral of x^p y^q over a simple polygon (Green's theorem, Gauss rule)."""
    t, w = np.polynomial.legendre.leggauss(8)
    t = 0.5 * (t + 1)
    w = 0.5 * w
    tot = 0.0
    n = len(poly)
    for i in range(n):
        x1, y1 = poly[i]
        x2, y2 = poly[(i + 1) % n]
        x = x1 + (x2 - x1) * t
        y = y1 + (y2 - y1) * t
        # int x^p y^q dA = loop int x^(p+1)/(p+1) y^q dy  (anticlockwise)
        tot += np.sum(w * x ** (p + 1) / (p + 1) * y**q) * (y2 - y1)
    return tot * np.sign(shoelace(poly))


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def proper_cross(p1, p2, q1, q2):
    """Segments cross at a point interior to both (exact for integers)."""
    return (
        orient(p1, p2, q1) * orient(p1, p2, q2) < 0
        and orient(q1, q2, p1) * orient(q1, q2, p2) < 0
    )


def on_segment(p, a, b):
    return (
        orient(a, b, p) == 0
        and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    )


def in_polygon(p, poly):
    """1 inside, 0 on the outline, -1 outside (exact for integers/fractions)"""
    n = len(poly)
    inside = False
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        if on_segment(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            o = orient(a, b, p)
            if (o > 0) == (b[1] > a[1]):
                inside = not inside
    return 1 if inside else -1


def segments_touch(a, b, c, d):
    return (
        proper_cross(a, b, c, d)
        or on_segment(c, a, b)
        or on_segment(d, a, b)
        or on_segment(a, c, d)
        or on_segment(b, c, d)
    )


def is_simple(poly):
    n = len(poly)
    if len(set(poly)) < n or shoelace(poly) == 0:
        return False
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        # spikes
        c = poly[(i + 2) % n]
        if orient(a, b, c) == 0 and (
            (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) < 0
        ):
            return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if segments_touch(a, b, poly[j], poly[(j + 1) % n]):
                return False
    return True
