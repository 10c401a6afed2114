"""C19: polygons, triangulation, quadrature and intersection.

All simple polygons with vertices on a small lattice (every starting vertex,
both orientations, concave ones and collinear vertices included) at several
scales and offsets, and all pairs of polylines on a lattice, open and closed.
"""

import itertools
import math
from mc.core import CheckDef, Section, Violation
from mc import ref

# name: (scale, r offset, z offset, exact)
SCALES = {"unit": (1, 0, 0, True), "mm": (1e-3, 1.37, -0.61, False), "bin": (2.0**-10, 0.75, -0.5, True), "big": (7.3, 100.1, 50.7, False)}


# heights or radii squeezed: lines cross at small angles
FLAT = {"flat": (1.0, 2.0**-10), "tall": (2.0**-9, 1.0)}


def place(p, sc):
    if sc in FLAT:
        a, b = FLAT[sc]
        return [(1.0 + a * x, b * y - 0.5) for x, y in p]
    s, r, z, _ = SCALES[sc]
    return [(r + s * x, z + s * y) for x, y in p]


def clip(poly, tri):
    if ref.shoelace(tri) < 0:
        tri = tri[::-1]
    out = list(poly)
    for k in range(len(tri)):
        a, b = tri[k], tri[(k + 1) % len(tri)]
        inp, out = out, []
        f = [(b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) for p in inp]
        for i in range(len(inp)):
            j = (i + 1) % len(inp)
            if f[i] >= 0:
                out.append(inp[i])
            if (f[i] > 0 and f[j] < 0) or (f[i] < 0 and f[j] > 0):
                t = f[i] / (f[i] - f[j])
                out.append((inp[i][0] + t * (inp[j][0] - inp[i][0]), inp[i][1] + t * (inp[j][1] - inp[i][1])))
        if len(out) < 3:
            return 0.0
    return abs(ref.shoelace(out))


def back(tri, sc):
    """Coordinates in lattice units"""
    s, r, z, _ = SCALES[sc]
    return [((float(x) - r) / s, (float(y) - z) / s) for x, y in tri]


ORDER = {1: 1, 3: 2, 6: 4}


def check_polygon(p, sc, quad, ck):
    from freegs import polygons, quadrature

    v = place(p, sc)
    s = SCALES[sc][0]
    # exact signed area: positive for clockwise polygons
    want = -ref.shoelace(p)
    tol = 1e-11 if sc in ("unit", "bin") else (1e-9 if sc == "mm" else 1e-10)
    given = [tuple(x) for x in v]
    ck.close(polygons.area(v) / (s * s), want, "area of %s" % (v,), rtol=0, atol=tol * 10)
    ck.same(bool(polygons.clockwise(v)), want > 0, "orientation of %s" % (v,))
    tris = [[tuple(x) for x in t] for t in polygons.triangulate(v)]
    ck.same([tuple(x) for x in v], given, "polygon passed to triangulate")
    T = [back(t, sc) for t in tris]
    tot = 0.0
    for t in T:
        ck.same(len(t), 3, "vertices of a triangle")
        a = abs(ref.shoelace(t))
        tot += a
        ck.expect(abs(clip(p, t) - a) <= 1e-8, lambda: "polygon %s: triangle %s is not inside" % (v, t))
    ck.expect(abs(tot - abs(want)) <= 1e-8, lambda: "polygon %s: triangles %s cover %g of %g" % (v, T, tot, abs(want)))
    for a, b in itertools.combinations(T, 2):
        if abs(ref.shoelace(b)) > 1e-12 and abs(ref.shoelace(a)) > 1e-12:
            ck.expect(clip(a, b) <= 1e-8, lambda: "polygon %s: triangles %s and %s overlap" % (v, a, b))
    for n in quad:
        q = quadrature.polygon_quad(v, n=n)
        W = [x[2] for x in q]
        ck.expect(abs(sum(W) - 1) <= 1e-9, lambda: "polygon %s, n=%d: weights sum to %r" % (v, n, sum(W)))
        ck.expect(min(W) >= -1e-12, lambda: "polygon %s, n=%d: negative weight %r" % (v, n, min(W)))
        Q = back([(x[0], x[1]) for x in q], sc)
        for (x, y), w in zip(Q, W):
            if abs(w) > 1e-12:
                ck.expect(inside(x, y, p), lambda: "polygon %s, n=%d: point (%g, %g) outside" % (v, n, x, y))
        A = abs(want)
        for i in range(ORDER[n] + 1):
            for j in range(ORDER[n] + 1 - i):
                got = quadrature.average(lambda r, z: ((r - SCALES[sc][1]) / s) ** i * ((z - SCALES[sc][2]) / s) ** j, q)
                ck.expect(abs(got - ref.poly_moment(p, i, j) / A) <= 1e-7, lambda: "polygon %s, n=%d: average of r^%d z^%d is %r" % (v, n, i, j, got))
    ck.step(3 + 2 * len(quad))
    ck.outcome(len(p), want > 0, len(T), convex(p))


def convex(p):
    o = [ref.orient(p[i - 2], p[i - 1], p[i]) for i in range(len(p))]
    return not (1 in o and -1 in o)


def inside(x, y, p):
    """Inside or within rounding of the outline"""
    if ref.in_polygon((x, y), p) >= 0:
        return True
    for i in range(len(p)):
        (ax, ay), (bx, by) = p[i - 1], p[i]
        t = ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / ((bx - ax) ** 2 + (by - ay) ** 2)
        t = min(max(t, 0), 1)
        if math.hypot(ax + t * (bx - ax) - x, ay + t * (by - ay) - y) < 1e-7:
            return True
    return False


def simple_polygons(first, pts, n):
    """All simple polygons of n vertices starting with the given ones"""
    rest = [p for p in pts if p not in first]
    for tail in itertools.permutations(rest, n - len(first)):
        p = list(first) + list(tail)
        if ref.is_simple(p):
            yield p


def run_polygons(case, ck):
    L = [(x, y) for x in range(case["w"]) for y in range(case["h"])]
    first = [tuple(p) for p in case["first"]]
    k = 0
    for p in simple_polygons(first, L, case["n"]):
        for sc in case["scales"]:
            quad = (1, 3, 6)
            if case["sparse"]:
                quad = ((1,), (3,), (6,))[k % 3]
            check_polygon(p, sc, quad, ck)
            k += 1
        ck.state(p)
        ck.trace()
    ck.note("polygons", k)


STARS = 1


def run_big(case, ck):
    """Combs, spirals and stars with many vertices"""
    p = [tuple(x) for x in case["p"]]
    n = len(p)
    if not ref.is_simple(p):
        raise RuntimeError("harness polygon is not simple")
    for k in range(n):
        v = p[k:] + p[:k]
        for u in (v, v[::-1]):
            for sc in case["scales"]:
                check_polygon(u, sc, (1, 3, 6), ck)
                ck.state(u)
                ck.trace()


# --- intersection
_cross, _touch = {}, {}


def seg_cross(a, b, c, d):
    k = (a, b, c, d)
    if k not in _cross:
        _cross[k] = ref.proper_cross(a, b, c, d)
    return _cross[k]


def seg_touch(a, b, c, d):
    k = (a, b, c, d)
    if k not in _touch:
        _touch[k] = ref.segments_touch(a, b, c, d)
    return _touch[k]


def segs(p, closed):
    s = [(p[i], p[i + 1]) for i in range(len(p) - 1)]
    if closed:
        s.append((p[-1], p[0]))
    return s


def run_pairs(case, ck):
    from freegs import polygons

    L = [(x, y) for x in range(case["w"]) for y in range(case["h"])]
    p = [tuple(x) for x in case["p"]]
    sc = case["scale"]
    exact = sc in FLAT or SCALES[sc][3]
    P = place(p, sc)
    r1, z1 = [x[0] for x in P], [x[1] for x in P]
    n = 0
    for q in itertools.product(L, repeat=case["m"]):
        if any(q[i] == q[i + 1] for i in range(len(q) - 1)):
            continue
        Q = place(q, sc)
        r2, z2 = [x[0] for x in Q], [x[1] for x in Q]
        for c1, c2 in case["flags"]:
            S1, S2 = segs(p, c1), segs(q, c2)
            want = any(seg_cross(a, b, c, d) for a, b in S1 for c, d in S2)
            if not want and not exact and any(seg_touch(a, b, c, d) for a, b in S1 for c, d in S2):
                continue
            got = bool(polygons.intersect(r1, z1, r2, z2, closed1=c1, closed2=c2))
            rev = bool(polygons.intersect(r2, z2, r1, z1, closed1=c2, closed2=c1))
            if got != want or rev != want:
                raise Violation("%s (closed %s) and %s (closed %s): intersect is %s, exchanged %s, expected %s" % (P, c1, Q, c2, got, rev, want))
            n += 1
    ck.comparisons += 2 * n
    ck.step(2 * n)
    ck.trace(n)
    ck.state(case)
    ck.outcome("pairs", sc, len(p), case["m"])


def run_outlines(case, ck):
    """Closed outlines of four and more vertices, against each other"""
    from freegs import polygons
    import numpy as np

    p, q = [tuple(x) for x in case["p"]], [tuple(x) for x in case["q"]]
    n = 0
    for sc in SCALES:
        for dx, dy in itertools.product(range(-3, 4), repeat=2):
            q2 = [(x + dx, y + dy) for x, y in q]
            want = any(seg_cross(a, b, c, d) for a, b in segs(p, True) for c, d in segs(q2, True))
            if not want and any(seg_touch(a, b, c, d) for a, b in segs(p, True) for c, d in segs(q2, True)) and not SCALES[sc][3]:
                continue
            P, Q = place(p, sc), place(q2, sc)
            for k in range(len(Q)):
                Qk = Q[k:] + Q[:k]
                for u in (Qk, Qk[::-1]):
                    a = ([x[0] for x in P], [x[1] for x in P], [x[0] for x in u], [x[1] for x in u])
                    got = [bool(polygons.intersect(*a)), bool(polygons.intersect(a[2], a[3], a[0], a[1]))]
                    if k == 0:
                        got.append(bool(polygons.intersect(*[np.array(x, dtype=float) for x in a])))
                    ck.same(got, [want] * len(got), "%s and %s" % (P, u))
                    n += 1
    ck.step(n)
    ck.trace(n)
    ck.state(case)
    ck.outcome("outlines", len(p), len(q))


def shapes():
    comb = [(0, 0), (7, 0), (7, 3), (6, 3), (6, 1), (5, 1), (5, 3), (4, 3), (4, 1), (3, 1), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)]
    spiral = [(0, 0), (6, 0), (6, 6), (0, 6), (0, 2), (4, 2), (4, 4), (2, 4), (2, 3), (3, 3), (3, 3 - 0), (1, 5)]
    spiral = [(0, 0), (6, 0), (6, 6), (0, 6), (0, 2), (4, 2), (4, 4), (2, 4), (2, 3), (1, 3), (1, 5), (5, 5), (5, 1), (0, 1)]
    star = [(0, 5), (3, 3), (5, 0), (3, -3), (0, -5), (-3, -3), (-5, 0), (-3, 3)]
    star2 = [(0, 6), (1, 1), (6, 0), (1, -1), (0, -6), (-1, -1), (-6, 0), (-1, 1)]
    plus = [(1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (2, 2), (2, 3), (1, 3), (1, 2), (0, 2), (0, 1), (1, 1)]
    zig = [(0, 0), (2, 1), (4, 0), (6, 1), (8, 0), (8, 2), (6, 3), (4, 2), (2, 3), (0, 2)]
    arrow = [(0, 0), (4, 2), (0, 4), (1, 2)]
    return dict(comb=comb, spiral=spiral, star=star, star2=star2, plus=plus, zig=zig, arrow=arrow)


def check(tier):
    q = tier == "quick"
    polys = []
    L3 = [(x, y) for x in range(3) for y in range(3)]
    L4 = [(x, y) for x in range(4) for y in range(4)]
    sc = ["unit", "mm"] if q else list(SCALES)
    for n in (3, 4, 5):
        for a in L3:
            polys.append(dict(w=3, h=3, n=n, first=[a], scales=list(SCALES), sparse=n > 4))
    for a in L3:
        for b in L3:
            if a != b:
                polys.append(dict(w=3, h=3, n=6, first=[a, b], scales=sc[:1] if q else sc, sparse=True))
                if not q:
                    for c in L3:
                        if c not in (a, b):
                            polys.append(dict(w=3, h=3, n=7, first=[a, b, c], scales=["unit", "mm"], sparse=True))
    for a in L4:
        polys.append(dict(w=4, h=4, n=3, first=[a], scales=sc, sparse=False))
        for b in L4:
            if a != b:
                if not q or L4.index(a) % 4 == 1:
                    polys.append(dict(w=4, h=4, n=4, first=[a, b], scales=["mm"] if q else sc, sparse=True))
                if not q:
                    polys.append(dict(w=4, h=4, n=5, first=[a, b], scales=["unit"], sparse=True))
    big = [dict(p=[list(x) for x in s], scales=list(SCALES)) for s in shapes().values()]
    pairs = []
    F4 = [[a, b] for a in (False, True) for b in (False, True)]
    for s in list(SCALES) + list(FLAT):
        for p in itertools.product(L4, repeat=2):
            if p[0] != p[1] and (not q or s not in FLAT or p[0] < p[1]):
                pairs.append(dict(w=4, h=4, p=[list(x) for x in p], m=2, scale=s, flags=F4))
        for p in itertools.product(L3, repeat=2):
            if p[0] != p[1]:
                pairs.append(dict(w=3, h=3, p=[list(x) for x in p], m=3, scale=s, flags=F4))
    for s in ("unit", "mm"):
        for p in itertools.product(L3, repeat=3):
            if p[0] == p[1] or p[1] == p[2]:
                continue
            if q and (s == "unit" or L3.index(p[0]) % 3):
                continue
            pairs.append(dict(w=3, h=3, p=[list(x) for x in p], m=3, scale=s, flags=[[False, False], [True, True]] if q else F4))
    S = shapes()
    outl = [dict(p=[list(x) for x in S[a]], q=[list(x) for x in S[b]]) for a in S for b in S if not q or a in ("arrow", "plus", "star2") or b == "arrow"]
    return CheckDef(
        "C19",
        [
            Section("polygons", polys, run_polygons, "all simple polygons of up to %s lattice vertices" % ("six of 3x3, four of 4x4" if q else "seven of 3x3, five of 4x4")),
            Section("many vertices", big, run_big, "combs, spirals, stars: all starting vertices and orientations"),
            Section("polylines", pairs, run_pairs, "all pairs of segments of 4x4 and polylines of 3x3 lattice points, open and closed"),
            Section("outlines", outl, run_outlines, "concave outlines at all lattice displacements"),
        ],
        ["polylines that touch without crossing are judged only where the coordinates are exact"],
    )
