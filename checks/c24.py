"""C24: the elementary loop response is the exact flux and field of a loop.

Enumerated: every (source, observation) pair of a lattice of positions and
scales, in every argument form (scalar/array in each of the four positions).
Oracle: the vector potential integral by a spectrally accurate rule, symmetry
laws, and field = derivatives of the flux.
"""

import itertools
import numpy as np
from mc.core import CheckDef, Section
from mc import ref


def lattice(tier):
    if tier == "quick":
        Rs = [0.05, 0.3, 1.0, 2.5]
        Zs = [-1.5, 0.0, 0.4]
        Ro = [0.02, 0.31, 0.7, 1.0, 1.9, 4.0]
        Zo = [-2.0, -0.3, 0.0, 0.4, 1.1]
    else:
        Rs = [0.02, 0.05, 0.12, 0.3, 0.6, 1.0, 1.7, 2.5, 6.0]
        Zs = [-4.0, -1.5, -0.2, 0.0, 0.4, 2.0]
        Ro = [0.005, 0.02, 0.1, 0.31, 0.5, 0.7, 1.0, 1.3, 1.9, 2.6, 4.0, 9.0]
        Zo = [-5.0, -2.0, -0.9, -0.3, 0.0, 0.15, 0.4, 1.1, 3.0]
    return Rs, Zs, Ro, Zo


def run_pair(case, ck):
    from freegs.gradshafranov import Greens, GreensBr, GreensBz

    Rc, Zc, Ro, Zo = case["Rc"], case["Zc"], case["Ro"], case["Zo"]
    R, Z = np.meshgrid(Ro, Zo, indexing="ij")
    g = Greens(Rc, Zc, R, Z)
    br = GreensBr(Rc, Zc, R, Z)
    bz = GreensBz(Rc, Zc, R, Z)
    ck.expect(np.shape(g) == R.shape, "flux has the shape of the observation points")
    ck.expect(np.all(np.isfinite(g)), "flux finite everywhere")
    ck.expect(np.all(np.isfinite(br)) and np.all(np.isfinite(bz)), "field finite")
    ck.expect(np.all(g > 0), "flux positive")
    for i, r in enumerate(Ro):
        for j, z in enumerate(Zo):
            ck.step()
            ck.state(Rc, Zc, r, z)
            dist = np.hypot(r - Rc, z - Zc)
            # K and E nearly cancel for small k, which limits the accuracy
            k2 = 4 * r * Rc / ((r + Rc) ** 2 + (z - Zc) ** 2)
            cancel = 2e-14 / k2**2
            what = "source (%g,%g) observed at (%g,%g)" % (Rc, Zc, r, z)
            # scalar evaluation agrees with array evaluation
            ck.close(Greens(Rc, Zc, r, z), g[i, j], "scalar flux, " + what, rtol=1e-12)
            ck.close(GreensBr(Rc, Zc, r, z), br[i, j], "scalar Br, " + what, rtol=1e-9, atol=1e-18)
            ck.close(GreensBz(Rc, Zc, r, z), bz[i, j], "scalar Bz, " + what, rtol=1e-9, atol=1e-18)
            # reciprocity, mirror and translation symmetry
            ck.close(Greens(r, z, Rc, Zc), g[i, j], "reciprocity, " + what, rtol=1e-10 + cancel)
            ck.close(Greens(Rc, -Zc, r, -z), g[i, j], "mirror, " + what, rtol=1e-10 + cancel)
            ck.close(Greens(Rc, Zc + 0.7, r, z + 0.7), g[i, j], "shift, " + what, rtol=1e-7 + cancel)
            ck.close(GreensBr(Rc, -Zc, r, -z), -br[i, j], "mirror Br, " + what, rtol=1e-7, atol=1e-16 + cancel * g[i, j] / (1e-3 * r))
            ck.close(GreensBz(Rc, -Zc, r, -z), bz[i, j], "mirror Bz, " + what, rtol=1e-7, atol=1e-16 + cancel * g[i, j] / (1e-3 * r))
            # scaling all lengths by s scales the flux by s
            ck.close(Greens(2 * Rc, 2 * Zc, 2 * r, 2 * z), 2 * g[i, j], "scaling, " + what, rtol=1e-10 + cancel)
            if dist > 0.02 * max(1.0, Rc):
                psi, rbr, rbz = ref.loop(Rc, Zc, r, z, n=8192)
                ck.close(g[i, j], psi, "exact flux, " + what, rtol=2e-6 + cancel)
                B = np.hypot(rbr, rbz)
                # the field is a difference over 1 mm
                h = 1e-3
                tol = min(20 * (h / min(dist, r, Rc)) ** 2, 0.3) + 1e-6
                if r > 5 * h:
                    ck.close(br[i, j], rbr, "exact Br, " + what, rtol=0, atol=tol * B + 1e-13 + cancel * g[i, j] / (1e-3 * r))
                    ck.close(bz[i, j], rbz, "exact Bz, " + what, rtol=0, atol=tol * B + 1e-13 + cancel * g[i, j] / (1e-3 * r))
                ck.outcome("far" if dist > max(r, Rc) else "near", np.sign(rbr), np.sign(rbz))
            else:
                ck.outcome("on source")
    ck.trace()


def run_close(case, ck):
    """Down to millimetres from the filament"""
    from freegs.gradshafranov import Greens, GreensBr, GreensBz

    Rc, Zc, d, k, n = case
    a = 2 * np.pi * k / n
    r, z = Rc + d * np.cos(a), Zc + d * np.sin(a)
    psi, rbr, rbz = ref.loop(Rc, Zc, r, z, n=int(min(max(8192, 30 * Rc / d), 400000)))
    what = "%g m from a filament at (%g,%g), direction %d/%d" % (d, Rc, Zc, k, n)
    ck.close(Greens(Rc, Zc, r, z), psi, "exact flux " + what, rtol=2e-6)
    ck.close(Greens(r, z, Rc, Zc), psi, "reciprocal flux " + what, rtol=2e-6)
    if d >= 8e-3:
        B = np.hypot(rbr, rbz)
        tol = 4 * (1e-3 / d) ** 2
        ck.close(GreensBr(Rc, Zc, r, z), rbr, "Br " + what, rtol=0, atol=tol * B)
        ck.close(GreensBz(Rc, Zc, r, z), rbz, "Bz " + what, rtol=0, atol=tol * B)
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("close", d, k)


def run_weak(case, ck):
    """Near the axis and far away, where the two elliptic integrals cancel"""
    from freegs.gradshafranov import Greens

    Rc, Zc, r, z = case
    k2 = 4 * r * Rc / ((r + Rc) ** 2 + (z - Zc) ** 2)
    psi = ref.loop(Rc, Zc, r, z, n=4096)[0]
    what = "source (%g,%g) observed at (%g,%g), k2 = %.1e" % (Rc, Zc, r, z, k2)
    tol = 1e-6 + 1e-14 / k2**2
    ck.close(Greens(Rc, Zc, r, z), psi, "exact flux, " + what, rtol=tol)
    ck.close(Greens(r, z, Rc, Zc), psi, "reciprocal flux, " + what, rtol=tol)
    ck.step(2)
    ck.state(case)
    ck.trace()
    ck.outcome(int(np.floor(np.log10(k2))))


FORMS = list(itertools.product(["s", "a"], repeat=2))


def run_forms(case, ck):
    """Scalars and arrays of any shape, as source or observation point."""
    from freegs.gradshafranov import Greens, GreensBr, GreensBz

    src, obs, shape, func = case["src"], case["obs"], tuple(case["shape"]), case["func"]
    f = {"psi": Greens, "Br": GreensBr, "Bz": GreensBz}[func]
    n = int(np.prod(shape)) if shape else 1
    vals = [(0.5 + 0.13 * k, -0.4 + 0.21 * k) for k in range(n)]
    so = [(1.1 + 0.17 * k, 0.3 - 0.11 * k) for k in range(n)]
    A = lambda v, i: np.array([x[i] for x in v]).reshape(shape)
    Rc, Zc = (A(so, 0), A(so, 1)) if src == "a" else so[0]
    R, Z = (A(vals, 0), A(vals, 1)) if obs == "a" else vals[0]
    args = [Rc, Zc, R, Z]
    copies = [np.array(a, copy=True) for a in args]
    out = f(Rc, Zc, R, Z)
    ck.step()
    for a, b in zip(args, copies):
        ck.expect(np.array_equal(np.asarray(a), b), "inputs are not modified")
    if src == "a" or obs == "a":
        ck.expect(np.shape(out) == shape, "result shape %s for %s" % (np.shape(out), case))
    flat = np.broadcast_to(out, shape if shape else ()).reshape(-1)
    for k in range(n):
        s = so[k] if src == "a" else so[0]
        o = vals[k] if obs == "a" else vals[0]
        p, br, bz = ref.loop(s[0], s[1], o[0], o[1])
        want = {"psi": p, "Br": br, "Bz": bz}[func]
        ck.close(flat[k], want, "%s element %d" % (func, k), rtol=1e-3, atol=1e-3 * np.hypot(br, bz))
    ck.state(case)
    ck.trace()
    ck.outcome(src, obs, len(shape))


def run_laws(case, ck):
    """Divergence-free and curl-free (Delta* psi = 0) away from the source"""
    from freegs.gradshafranov import Greens, GreensBr, GreensBz

    Rc, Zc, r, z = case
    h = 5e-3
    psi = {(i, j): Greens(Rc, Zc, r + i * h, z + j * h) for i in (-2, -1, 0, 1, 2) for j in (-2, -1, 0, 1, 2)}
    d1 = lambda f: (f(-2) - 8 * f(-1) + 8 * f(1) - f(2)) / (12 * h)
    d2 = lambda f: (-f(-2) + 16 * f(-1) - 30 * f(0) + 16 * f(1) - f(2)) / (12 * h * h)
    pr, pz = d1(lambda i: psi[i, 0]), d1(lambda j: psi[0, j])
    prr, pzz = d2(lambda i: psi[i, 0]), d2(lambda j: psi[0, j])
    scale = abs(prr) + abs(pzz) + abs(pr / r)
    # rounding where K and E nearly cancel (small k)
    k2 = 4 * r * Rc / ((r + Rc) ** 2 + (z - Zc) ** 2)
    noise = 1e-13 / k2**2 * abs(psi[0, 0])
    ck.close(prr + pzz - pr / r, 0.0, "Delta* psi away from the source", atol=1e-3 * scale + 8 * noise / h**2)
    B = np.hypot(pr, pz) / r
    ck.close(GreensBr(Rc, Zc, r, z), -pz / r, "Br = -(1/R) dpsi/dZ", atol=2e-3 * B + noise / (1e-3 * r))
    ck.close(GreensBz(Rc, Zc, r, z), pr / r, "Bz = (1/R) dpsi/dR", atol=2e-3 * B + noise / (1e-3 * r))
    ck.step(25)
    ck.state(case)
    ck.trace()
    ck.outcome(np.sign(r - Rc), np.sign(z - Zc))


HIST_DATA = [
    ([0.5, 0.9, 1.4], [0.1, -0.2, 0.6]),
    ([0.6, 1.1, 1.9], [0.1, -0.2, 0.6]),
    ([0.5, 0.9, 1.4], [-0.4, 0.3, 0.0]),
]


def run_history(case, ck):
    """Calls one after another with the same array objects, whose contents
    are changed in place between the calls"""
    from freegs.gradshafranov import Greens, GreensBr, GreensBz

    funcs = (Greens, GreensBr, GreensBz)
    R, Z = np.zeros(3), np.zeros(3)
    Rc, Zc = np.zeros(3), np.zeros(3)
    kept = []
    for f, d, src in case["calls"]:
        R[:], Z[:] = HIST_DATA[d]
        if src == 0:
            a = (1.2, 0.3)
        elif src == 1:
            a = (1.2, -0.3)
        else:
            Rc[:], Zc[:] = 0.3 + 0.2 * np.array(HIST_DATA[(d + src) % 3][0]), 0.5
            a = (Rc, Zc)
        before = [np.array(x, copy=True) for x in (*a, R, Z)]
        got = funcs[f](*a, R, Z)
        ck.step()
        ck.expect(all(np.array_equal(x, y) for x, y in zip((*a, R, Z), before)), "arguments are not modified")
        want = [ref.loop(float(np.ravel(before[0])[k % np.size(before[0])]), float(np.ravel(before[1])[k % np.size(before[1])]), before[2][k], before[3][k], n=512)[f] for k in range(3)]
        ck.close(got, want, "call %s after %s" % ((f, d, src), case["calls"]), rtol=1e-4 if f else 1e-9, atol=1e-12)
        for g, w in kept:
            ck.expect(np.array_equal(g, w), "earlier results are not changed by a later call")
        kept.append((got, np.array(got, copy=True)))
    # results belong to the caller
    f, d, src = case["calls"][0]
    if src < 2:
        R[:], Z[:] = HIST_DATA[d]
        a = funcs[f](1.2, 0.3 if src == 0 else -0.3, R, Z)
        w = np.array(a, copy=True)
        a *= 2.0
        ck.close(funcs[f](1.2, 0.3 if src == 0 else -0.3, R, Z), w, "result belongs to the caller", rtol=1e-12)
    ck.state(case["calls"])
    ck.trace()
    ck.outcome(len(case["calls"]))


def check(tier):
    Rs, Zs, Ro, Zo = lattice(tier)
    pairs = [
        {"Rc": a, "Zc": b, "Ro": Ro, "Zo": Zo} for a, b in itertools.product(Rs, Zs)
    ]
    shapes = [(), (1,), (3,), (2, 3)] + ([(2, 1, 2), (1, 1)] if tier == "thorough" else [])
    forms = [
        {"src": s, "obs": o, "shape": list(sh), "func": f}
        for sh in shapes
        for s, o in FORMS
        for f in ("psi", "Br", "Bz")
    ]
    laws = []
    for Rc, Zc, r, z in itertools.product(Rs, Zs, Ro, Zo):
        if r > 0.05 and np.hypot(r - Rc, z - Zc) > 0.15:
            laws.append([Rc, Zc, r, z])
    close = [
        [Rc, Zc, d, k, n]
        for n in ((8,) if tier == "quick" else (16,))
        for Rc in Rs
        for Zc in Zs[:2]
        for d in (1e-3, 2e-3, 4e-3, 8e-3, 1.5e-2, 4e-2)
        for k in range(n)
        if d < 0.2 * Rc and 1e-3 * Rc <= 2 * d
    ]
    weak = [
        [Rc, Zc, r, z]
        for Rc, Zc in ((0.3, -0.5), (1.0, 0.0), (2.5, 0.4))
        for r in (2e-6, 5e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 4e-3)
        for z in ((-2.0, 0.0, 0.4) if tier == "quick" else (-4.0, -2.0, -0.3, 0.0, 0.4, 1.1))
    ] + [
        [Rc, Zc, Rc + D * np.cos(a), Zc + D * np.sin(a)]
        for Rc, Zc in ((0.3, -0.5), (1.0, 0.0), (2.5, 0.4))
        for D in (30.0, 300.0, 3e3, 3e4, 1e5)
        for a in np.linspace(-1.5, 1.5, 5 if tier == "quick" else 13)
    ]
    weak = [c for c in weak if 4 * c[0] * c[2] / ((c[0] + c[2]) ** 2 + (c[1] - c[3]) ** 2) > 3e-6]
    ops = list(itertools.product((0, 1, 2), range(3), (0, 1, 2, 3)))
    hist = [{"calls": [list(x) for x in c]} for c in itertools.product(ops, repeat=2)]
    if tier == "thorough":
        small = [o for o in ops if o[2] in (0, 2)]
        hist += [{"calls": [list(x) for x in c]} for c in itertools.product(small, repeat=3)]
    return CheckDef(
        "C24",
        [
            Section("call histories", hist, run_history, "all sequences of %d calls on array objects changed in place" % (2 if tier == "quick" else 3)),
            Section("close to the filament", close, run_close, "distances of 1 to 40 mm in all directions"),
            Section("near the axis and far away", weak, run_weak, "down to 2e-6 m from the axis, up to 100 km away (k2 > 3e-6)"),
            Section("pairs", pairs, run_pair, "all %dx%d sources x %dx%d observation points" % (len(Rs), len(Zs), len(Ro), len(Zo))),
            Section("argument forms", forms, run_forms, "scalar/array source and observation, shapes %s" % (shapes,)),
            Section("field laws", laws, run_laws, "all lattice pairs further apart than 0.15 m"),
        ],
        ["field tolerance allows the documented 1 mm central difference"],
    )
