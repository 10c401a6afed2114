"""C27: the toroidal flux of a surface and the coordinate made of it.

The reference integrates f / R over the area inside of each surface, in polar
coordinates about the axis.  Enumerated: configurations, grids, signs of current
and field, limited and diverted plasmas, and all forms, orders and subsets of
requests up to a length.
"""

import itertools
import math
import numpy as np
from mc.core import CheckDef, Section, Inconclusive
from checks.c25 import Map, equilibrium

LEVELS = [0.0, 0.02, 0.2, 0.5, 0.8, 0.95, 1.0]
_ref = {}


def reference(M, key):
    """Toroidal flux inside of each level, divided by (2 pi)^2"""
    if key not in _ref:
        eq, o = M.eq, M.o
        x, w = np.polynomial.legendre.leggauss(24)
        x, w = 0.5 * (x + 1), 0.5 * w
        th = np.arange(720) * 2 * np.pi / 720 + 1e-3
        out = []
        for p in LEVELS:
            if p == 0.0:
                out.append(0.0)
                continue
            p = min(p, 0.99999)
            r, z, ok = M.surface(p, th)
            if not ok.all():
                raise Inconclusive("surface leaves the domain")
            d = np.hypot(r - o[0], z - o[1])
            t = x[:, None] * d
            R, Z = o[0] + t * np.sin(th), o[1] + t * np.cos(th)
            f = np.asarray(eq.fpol(np.clip(M.at(R, Z), 0, 1)), dtype=float)
            out.append(float(np.sum(w[:, None] * d * t * f / R) * 2 * np.pi / 720 / (4 * np.pi ** 2)))
        _ref[key] = np.array(out)
    return _ref[key]


def tol(p):
    return 0.012 if p < 0.1 else (0.006 if p < 0.97 else 0.02)


def run(case, ck):
    args = (case["conf"], case["grid"], case["sign"], case["wall"], case["Z0"], case["sF"])
    eq = equilibrium(*args)
    M = Map(eq)
    ref = reference(M, args)
    # toroidal flux follows q dpsi: sign of the field and of the fall of the poloidal flux
    want = ref * np.sign(eq.psi_axis - eq.psi_bndry)
    rho = np.sqrt(ref / ref[-1])
    psi = eq.psi_axis + np.array(LEVELS) * (eq.psi_bndry - eq.psi_axis)
    psi0 = np.array(eq.psi())
    top = abs(want[-1])
    for sub in case["requests"]:
        for form in case["forms"] if len(sub) > 1 else ["scalar", "array"]:
            if form == "scalar":
                arg = float(psi[sub[0]])
            elif form == "array":
                arg = np.array(psi[list(sub)])
            w = "levels %s as %s" % ([LEVELS[i] for i in sub], form)
            F, Q = eq.tor_flux(arg), eq.rhotor(arg)
            n = len(sub)
            if n > 1:
                ck.same((np.shape(F), np.shape(Q)), ((n,), (n,)), w + ": shape")
            for k, i in enumerate(sub):
                f, r = float(np.ravel(F)[k]), float(np.ravel(Q)[k])
                ck.close(f, want[i], w + ": toroidal flux of level %g" % LEVELS[i], rtol=tol(LEVELS[i]), atol=1e-9 * top)
                ck.close(r, rho[i], w + ": coordinate of level %g" % LEVELS[i], rtol=0.5 * (tol(LEVELS[i]) + tol(1.0)), atol=1e-9)
                if LEVELS[i] in (0.0, 1.0):
                    ck.close(r, LEVELS[i], w + ": coordinate at the end", rtol=0, atol=1e-9)
            ck.step()
    ck.expect(np.array_equal(eq.psi(), psi0), "equilibrium is unchanged")
    ck.state(case)
    ck.trace()
    ck.outcome(case["conf"], case["sign"], case["sF"], bool(eq.is_limited))


def check(tier):
    q = tier == "quick"
    cases = []
    idx = range(len(LEVELS))
    singles = [(i,) for i in idx]
    pairs = list(itertools.permutations(idx, 2))
    full = [tuple(idx), tuple(reversed(idx)), (3, 0, 6, 1, 5, 2, 4), (4, 4, 2)]
    confs, grids = ["lower", "upper", "double", "lowerS", "none"], ["33x33", "33x65", "65x33", "65x65"]
    for c, g, s, w, sF, Z0 in itertools.product(confs, grids, (1.0, -1.0), (None, "in", "out", "far"), (1.0, -1.0), (0.0, 0.06)):
        if c == "none" and w is None:
            continue
        k = confs.index(c) + grids.index(g) + (None, "in", "out", "far").index(w)
        if q and (k % 4 or Z0 == 0.0 or (sF > 0) != ((k // 4 + confs.index(c) + (s > 0)) % 2 == 0)):
            continue
        if q:
            req = [singles[len(cases) % len(singles)], pairs[7 * len(cases) % len(pairs)], full[len(cases) % len(full)]]
        else:
            req = singles + pairs[k % 5::5] + full
        cases.append(dict(conf=c, grid=g, sign=s, wall=w, Z0=Z0, sF=sF, requests=req, forms=["array"]))
    for s, sF in itertools.product((1.0, -1.0), repeat=2):
        # every subset and order up to two levels
        cases.append(dict(conf="lower", grid="33x33", sign=s, wall=None, Z0=0.06, sF=sF, requests=(pairs[(0 if s > 0 else 2) + (0 if sF > 0 else 1)::4] if q else pairs + list(itertools.combinations(idx, 3))), forms=["array"]))
    return CheckDef(
        "C27",
        [Section("requests", cases, run, "configurations x grids x signs x walls, requests of every level, pairs and whole profiles in several orders", timeout=900)],
        ["levels next to the separatrix are compared to 2 % (the safety factor is extrapolated there)"],
    )
