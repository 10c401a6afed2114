"""C12: coil current control.

Enumerated: constraint sets x control subsets x limits x starting currents x
machines.  Oracle: unit responses from independent loop quadrature; the optimum
within limits is found by enumerating every active set (each current free, at
a limit, or, for the total limit, of either sign or zero) and solving it
exactly, so no optimiser is trusted.
"""

import functools
import itertools
import numpy as np
from mc.core import CheckDef, Section
from mc import eqs, ref

X1, X2, X3 = (1.1, -0.7), (1.1, 0.7), (1.25, 0.6)
CON = {
    "x": dict(xpoints=[X1]),
    "iso": dict(isoflux=[(0.7, 0.05, 1.5, -0.1)]),
    "psi": dict(psivals=[(0.7, 0.1, 0.05)]),
    "xx": dict(xpoints=[X1, X2]),
    "x+iso": dict(xpoints=[X1], isoflux=[(X1[0], X1[1], 1.5, 0.0)]),
    "2psi": dict(psivals=[(0.7, 0.1, 0.05), (1.4, -0.2, -0.04)]),
    "x+psi": dict(xpoints=[X3], psivals=[(X3[0], X3[1], 0.03)]),
    "2iso": dict(isoflux=[(0.7, 0.05, 1.5, -0.1), (0.7, 0.05, 1.1, 0.5)]),
    "all": dict(xpoints=[X1, X2], isoflux=[X1 + X2], psivals=[(X1[0], X1[1], 0.06)]),
}
# controls: list of filaments (r, z, weight)
MACHINES = {
    "plain": [[(1.0, 1.35, 1.0)], [(1.0, -1.35, 1.0)], [(2.4, 0.8, 1.0)], [(2.4, -0.8, 1.0)]],
    "mixed": [[(1.0, 1.35, 1.0), (1.0, -1.35, 1.6)], [(2.4, 0.8, 4.0)], [(2.4, -0.8, 1.0)], [(0.7, 1.5, 2.0)]],
}
START = {
    "plain": {"near": [1.5e5, 3e5, -9e4, -9e4], "zero": [0.0, 0.0, 0.0, 0.0], "far": [-2e5, 5e5, 1e5, -3e5]},
    "mixed": {"near": [1.9e5, -2.3e4, -9e4, 0.0], "zero": [0.0, 0.0, 0.0, 0.0], "far": [-2e5, 1e5, 1e5, -3e5]},
}


@functools.lru_cache(None)
def loop(r, z, R, Z):
    return tuple(float(np.asarray(v)) for v in ref.loop(r, z, np.array(R), np.array(Z)))


def unit(fils, R, Z):
    return np.array([w * np.array(loop(r, z, R, Z)) for r, z, w in fils]).sum(axis=0)


def build(machine, start, ctl, sign=1.0):
    import freegs
    from freegs.machine import Machine, Circuit
    from freegs.coil import Coil

    parts = []
    for k, f in enumerate(MACHINES[machine]):
        if len(f) > 1:
            c = Circuit([("c%d%d" % (k, n), Coil(r, z), w) for n, (r, z, w) in enumerate(f)])
        else:
            c = Coil(f[0][0], f[0][1], turns=int(f[0][2]))
        c.current = sign * START[machine][start][k]
        c.control = bool(ctl[k])
        parts.append(("k%d" % k, c))
    tok = Machine(parts)
    eq = freegs.Equilibrium(tok, **eqs.GRIDS["17x33"])
    J = eqs.bump(eq.R, eq.Z, 1.0, 0.0, 0.42, sign * 3e5, e=1.45)
    eq.solve(eqs.StubProfile(), Jtor=J)
    return eq, tok


def system(case, eq, tok):
    """Rows of the constraints over the controlled currents, and plasma part"""
    idx = [k for k, c in enumerate(case["ctl"]) if c]
    fil = MACHINES[case["machine"]]
    con = CON[case["con"]]
    s = case.get("sign", 1.0)
    A, b = [], []

    def row(f, target, value):
        A.append([f(unit(fil[k], *p)) for k in idx for p in [target]])
        b.append(value)

    for r, z in con.get("xpoints", []):
        row(lambda u: u[1], (r, z), -float(eq.Br(r, z)))
        row(lambda u: u[2], (r, z), -float(eq.Bz(r, z)))
    for r1, z1, r2, z2 in con.get("isoflux", []):
        A.append([unit(fil[k], r1, z1)[0] - unit(fil[k], r2, z2)[0] for k in idx])
        b.append(float(eq.psiRZ(r2, z2) - eq.psiRZ(r1, z1)))
    for r, z, p in con.get("psivals", []):
        row(lambda u: u[0], (r, z), s * p - float(eq.psiRZ(r, z)))
    return np.array(A, dtype=float), np.array(b, dtype=float), idx


def residuals(case, eq):
    con = CON[case["con"]]
    s = case.get("sign", 1.0)
    out = []
    for r, z in con.get("xpoints", []):
        out += [-float(eq.Br(r, z)), -float(eq.Bz(r, z))]
    for r1, z1, r2, z2 in con.get("isoflux", []):
        out.append(float(eq.psiRZ(r2, z2) - eq.psiRZ(r1, z1)))
    for r, z, p in con.get("psivals", []):
        out.append(s * p - float(eq.psiRZ(r, z)))
    return np.array(out)


def control(case, **kw):
    from freegs.control import constrain

    con = {k: list(v) for k, v in CON[case["con"]].items()}
    s = case.get("sign", 1.0)
    if "psivals" in con:
        con["psivals"] = [(r, z, s * p) for r, z, p in con["psivals"]]
    return constrain(gamma=case.get("gamma", 1e-12), **con, **kw)


SC = 1e5  # currents are compared in units of 100 kA


def optimum(A, b, y0, lo, hi, total=None):
    """Smallest ||A (y - y0) - b||^2 over lo<=y<=hi, sum|y|<=total"""
    n = len(y0)
    best, arg = np.inf, None
    d = b + A @ y0
    states = []
    for k in range(n):
        s = ["+"] if total is None else ["+", "-", "0"]
        if np.isfinite(lo[k]):
            s.append("l")
        if np.isfinite(hi[k]):
            s.append("u")
        states.append(s)
    for st in itertools.product(*states):
        y = np.array([{"l": lo[k], "u": hi[k]}.get(c, 0.0) for k, c in enumerate(st)])
        free = [k for k, c in enumerate(st) if c in "+-"]
        for tight in (False, True) if total is not None else (False,):
            z = y.copy()
            if free:
                Af = A[:, free]
                rhs = d - A @ y
                if not tight:
                    z[free] = np.linalg.lstsq(Af, rhs, rcond=1e-10)[0]
                else:
                    # sum s_k y_k = total - sum |fixed|, least squares on the plane
                    s = np.array([1.0 if st[k] == "+" else -1.0 for k in free])
                    t = total - np.abs(y).sum()
                    if t < -1e-12:
                        continue
                    p = s * t / len(free)
                    N = np.linalg.svd(s[None, :])[2][1:].T
                    w = np.linalg.lstsq(Af @ N, rhs - Af @ p, rcond=1e-10)[0] if N.size else np.zeros(0)
                    z[free] = p + (N @ w if N.size else 0.0)
            elif tight:
                continue
            if np.any(z < lo - 1e-9) or np.any(z > hi + 1e-9) or (total is not None and np.abs(z).sum() > total + 1e-9):
                continue
            f = float(np.sum((A @ z - d) ** 2))
            if f < best:
                best, arg = f, z
    return best, arg


def common(case, ck):
    eq, tok = build(case["machine"], case["start"], case["ctl"], case.get("sign", 1.0))
    A, b, idx = system(case, eq, tok)
    before = [float(c.current) for _, c in tok.coils]
    plasma = np.array(eq.plasma_psi)
    return eq, tok, A, b, idx, before, plasma


def frame(ck, tok, eq, idx, before, plasma, what):
    after = [float(c.current) for _, c in tok.coils]
    ck.expect(np.all(np.isfinite(after)), "currents are finite " + what)
    for k, (x, y) in enumerate(zip(before, after)):
        if k not in idx:
            ck.same(y, x, "uncontrolled coil %d %s" % (k, what))
    ck.expect(np.array_equal(plasma, eq.plasma_psi), "plasma flux is not changed " + what)
    return np.array(after)[idx]


def run_free(case, ck):
    """No limits: satisfied, or the regularised least squares optimum"""
    eq, tok, A, b, idx, before, plasma = common(case, ck)
    what = "(%s, controls %s)" % (case["con"], idx)
    c = control(case)
    flux0 = eq.psi().copy()
    c(eq)
    ck.step()
    ck.state(case)
    y = frame(ck, tok, eq, idx, before, plasma, what)
    x = (y - np.array(before)[idx]) / SC
    g = case.get("gamma", 1e-12)
    A2 = np.vstack([A, g * np.eye(len(idx))]) * SC
    b2 = np.concatenate([b, np.zeros(len(idx))])
    xr = np.linalg.lstsq(A2, b2, rcond=None)[0]
    f, fr = np.sum((A2 @ x - b2) ** 2), np.sum((A2 @ xr - b2) ** 2)
    nb = np.sum(b**2)
    ck.expect(f <= fr * 1.001 + 1e-7 * nb + 1e-14, "%s: sum of squares %g, optimum %g, before %g" % (what, f, fr, nb))
    # no current is spent without need
    ck.expect(np.linalg.norm(x) <= 1.02 * np.linalg.norm(xr) + 1e-3, "%s: current change %s, least squares %s" % (what, x, xr))
    sv = np.linalg.svd(A2, compute_uv=False)
    if len(sv) == len(idx) and sv[-1] > 1e-3 * sv[0]:
        ck.close(x, xr, "current change (100 kA) " + what, rtol=0, atol=2e-3 * max(1.0, np.abs(xr).max()))
    res = residuals(case, eq)
    sat = fr < 1e-9 * max(nb, 1e-12)
    if sat:
        ck.close(res, 0.0, "constraints hold " + what, rtol=0, atol=3e-4 * np.sqrt(nb) + 2e-6)
    # the responses used by the control are those of the equilibrium
    ck.close(res, b - A @ (x * SC), "residuals after control " + what, rtol=0, atol=1e-4 * (np.sqrt(nb) + np.abs(A).max() * SC * np.abs(x).max()))
    # flux map changes by the unit responses
    i, j = 5, 20
    want = flux0[i, j] + sum(unit(MACHINES[case["machine"]][k], float(eq.R[i, j]), float(eq.Z[i, j]))[0] * (v * SC) for k, v in zip(idx, x))
    ck.close(eq.psi()[i, j], want, "flux on the grid " + what, rtol=0, atol=1e-6 * (np.abs(want) + np.abs(flux0).max()))
    # again: nothing changes
    c(eq)
    ck.step()
    y2 = frame(ck, tok, eq, idx, before, plasma, "again " + what)
    if g < 1e-9:  # a larger gamma approaches the optimum in several steps
        ck.close(y2 / SC, y / SC, "applying control again " + what, rtol=0, atol=5e-3 * max(1.0, np.abs(x).max()))
    f2 = np.sum(residuals(case, eq) ** 2)
    ck.expect(f2 <= np.sum(res**2) * 1.001 + 1e-7 * nb + 1e-12, "%s: second application worse, %g after %g" % (what, f2, np.sum(res**2)))
    ck.trace()
    ck.outcome(case["con"], len(idx), "satisfied" if sat else "optimum")


def run_limited(case, ck):
    eq, tok, A, b, idx, before, plasma = common(case, ck)
    what = "(%s, controls %s, limits %s, total %s)" % (case["con"], idx, case["lims"], case["total"])
    lims = case["lims"]
    c = control(case, current_lims=[tuple(l) for l in lims] if lims else None, max_total_current=case["total"])
    c(eq)
    ck.step()
    ck.state(case)
    y = frame(ck, tok, eq, idx, before, plasma, what)
    for k, v in zip(idx, y):
        if lims:
            lo, hi = lims[k]
            ck.expect(lo - 1e-3 * (1 + abs(lo)) <= v <= hi + 1e-3 * (1 + abs(hi)), "current %g in coil %d outside its limits %s" % (v, k, what))
    if case["total"] is not None:
        ck.expect(np.abs(y).sum() <= case["total"] * (1 + 1e-3) + 5.0, "total current %g %s" % (np.abs(y).sum(), what))
    lo = np.array([lims[k][0] if lims else -np.inf for k in idx]) / SC
    hi = np.array([lims[k][1] if lims else np.inf for k in idx]) / SC
    f0, _ = optimum(A * SC, b, np.array(before)[idx] / SC, lo, hi, None if case["total"] is None else case["total"] / SC)
    f = float(np.sum(residuals(case, eq) ** 2))
    nb = float(np.sum(b**2))
    ck.expect(f <= f0 * 1.01 + 1e-4 * nb + 1e-9, "sum of squares %g, best within limits %g, before %g %s" % (f, f0, nb, what))
    ck.expect(f >= f0 * 0.99 - 1e-4 * nb - 1e-9, "sum of squares %g below the optimum %g %s" % (f, f0, what))
    # again: still within limits and no worse
    c(eq)
    y2 = frame(ck, tok, eq, idx, before, plasma, "again " + what)
    f2 = float(np.sum(residuals(case, eq) ** 2))
    ck.expect(f2 <= f * 1.01 + 1e-4 * nb + 1e-9, "second application worse: %g after %g %s" % (f2, f, what))
    ck.step()
    ck.trace()
    ck.outcome(case["con"], bool(lims), case["total"] is not None, f0 < 1e-8)


def run_none(case, ck):
    from freegs.control import constrain

    eq, tok = build("plain", "near", [1, 1, 1, 1])
    before = [float(c.current) for _, c in tok.coils]
    ck.raises(ValueError, lambda: constrain(**case["kw"])(eq), "no constraints given")
    ck.same([float(c.current) for _, c in tok.coils], before, "currents after refusal")
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("refused")


# ---------------------------------------------------------------- flux maps
FITS = ["ConstrainPsi2D", "ConstrainPsiNorm2D", "ConstrainPsi2DAdvanced", "ConstrainPsiNorm2DAdvanced"]


def weights(kind, shape):
    if kind is None:
        return None
    if kind == "scalar":
        return 2.5
    w = np.ones(shape)
    if kind == "part":
        w[:, : shape[1] // 3] = 0.0
    else:
        w = 1 + np.add.outer(np.arange(shape[0]) % 3, np.arange(shape[1]) % 2) * 0.5
    return w


def normalised(eq):
    ax = eq.magneticAxis()
    return (eq.psi() - ax[2]) / (eq.psi_bndry - ax[2])


def run_fit(case, ck):
    from freegs import control as cm

    s = case["sign"]
    eq0, tok0 = build(case["machine"], "near", case["ctl"], s)
    true = np.array([float(c.current) for _, c in tok0.coils])
    norm = "Norm" in case["cls"]
    target = normalised(eq0) if norm else eq0.psi() + case["offset"]
    t0 = target.copy()
    eq, tok = build(case["machine"], "near", case["ctl"], s)
    idx = [k for k, c in enumerate(case["ctl"]) if c]
    for k, f in zip(range(4), case["factor"]):
        if k in idx:
            tok.coils[k][1].current = true[k] * f
    before = [float(c.current) for _, c in tok.coils]
    plasma = np.array(eq.plasma_psi)
    kw = {}
    w = weights(case["weights"], target.shape)
    if w is not None:
        kw["weights"] = w
    lims = None
    if case["lims"] is not None:
        lims = [(t - a * 1e5, t + b_ * 1e5) for t, (a, b_) in zip(true, case["lims"])]
        kw["current_lims"] = lims if case.get("full", True) else [lims[k] for k in idx]
    c = getattr(cm, case["cls"])(target, **kw)
    c(eq)
    ck.step()
    ck.state(case)
    what = "(%s, controls %s)" % (case["cls"], idx)
    y = frame(ck, tok, eq, idx, before, plasma, what)
    ck.expect(np.array_equal(target, t0), "target is not modified")
    if lims is None or all(a >= 0 and b_ >= 0 for a, b_ in case["lims"]):
        ck.close(y / SC, true[idx] / SC, "recovered currents (100 kA) " + what, rtol=0, atol=2e-3)
        ck.outcome(case["cls"], "recovered")
    else:
        for k, v in zip(idx, y):
            ck.expect(lims[k][0] - 1.0 <= v <= lims[k][1] + 1.0, "current %g outside %s %s" % (v, lims[k], what))
        if not norm:
            # linear problem: exact optimum by active sets
            W = np.broadcast_to(1.0 if w is None else w, target.shape)
            cols = []
            for k in idx:
                u = np.array([[unit(MACHINES[case["machine"]][k], float(r), float(z))[0] for z in eq.Z[0]] for r in eq.R[:, 0]])
                cols.append(((u - np.average(u, weights=W)) * W).ravel())
            A = np.array(cols).T * SC
            tt = eq0.psi()
            d = ((tt - np.average(tt, weights=W)) * W).ravel()
            cur = eq.psi()
            got = np.sum((((cur - np.average(cur, weights=W)) * W).ravel() - d) ** 2)
            # in terms of deviations from the true currents
            lo = np.array([lims[k][0] - true[k] for k in idx]) / SC
            hi = np.array([lims[k][1] - true[k] for k in idx]) / SC
            f0, arg = optimum(A, np.zeros(A.shape[0]), np.zeros(len(idx)), lo, hi)
            ck.expect(got <= f0 * 1.02 + 1e-9, "misfit %g, best within limits %g %s" % (got, f0, what))
        ck.outcome(case["cls"], "limited")
    ck.trace()


def check(tier):
    q = tier == "quick"
    subsets = [list(m) for m in itertools.product((0, 1), repeat=4) if any(m)]
    free = [
        dict(machine=m, con=c, ctl=s, start=st, sign=sg, gamma=g)
        for c in CON
        for s in subsets
        for m in MACHINES
        for st in (("near", "zero", "far") if not q else ("near", "zero"))
        for sg, g in ((1.0, 1e-12), (-1.0, 1e-12), (1.0, 1e-7)) + (() if q else ((-1.0, 3e-8), (1.0, 1e-6)))
    ]
    L = {
        "none": None,
        "wide": [(-1e6, 1e6)] * 4,
        "tight": [(-1e5, 1e5)] * 4,
        "mixed": [(0.0, 2e5), (-5e4, 3e5), (-1e6, 0.0), (-3e4, 3e4)],
        "positive": [(2e4, 9e4)] * 4,
    }
    lim = [
        dict(machine=m, con=c, ctl=s, start=st, lims=L[l], total=t, sign=sg)
        for c in CON
        for s in subsets
        for m in MACHINES
        for l in L
        for t in ((None, 2e5) if q else (None, 6e5, 2e5, 9e4))
        for st, sg in ((("near", 1.0),) if q else (("near", 1.0), ("zero", -1.0), ("far", 1.0)))
        if not (l == "none" and t is None)
        and not (l == "positive" and t is not None and t <= 9e4)
    ]
    none = [dict(kw={}), dict(kw=dict(xpoints=[], isoflux=[], psivals=[]))]
    factors = [(1.1, 0.9, 1.0, 1.05), (0.9, 1.0, 1.15, 1.0)] if q else [(1.1, 0.9, 1.0, 1.05), (0.9, 1.0, 1.15, 1.0), (1.2, 1.2, 0.8, 0.8), (1.0, 1.0, 1.0, 1.0)]
    fits = []
    for cls, s, f, w, m in itertools.product(FITS, subsets, factors, (None, "scalar", "part", "vary"), ("plain", "mixed")):
        base = dict(cls=cls, ctl=s, factor=list(f), weights=w, machine=m, sign=1.0, offset=0.0, lims=None)
        fits.append(base)
        if w == "vary":
            fits.append(dict(base, sign=-1.0, offset=2.0))
        if "Advanced" in cls and w in (None, "part"):
            fits.append(dict(base, lims=[(1, 2)] * 4))
            fits.append(dict(base, lims=[(1, 2)] * 4, full=False))
            fits.append(dict(base, lims=[(-0.05, 1), (1, 1), (0.5, -0.02), (1, 0.3)]))
            fits.append(dict(base, lims=[(1, 1), (0, 0), (1, 1), (-0.03, 0.04)], full=False))
    return CheckDef(
        "C12",
        [
            Section("refused", none, run_none, "no constraints"),
            Section("unlimited", free, run_free, "%d constraint sets x 15 control subsets x machines x starts x sign/gamma" % len(CON)),
            Section("limited", lim, run_limited, "constraint sets x control subsets x current limits x total limit"),
            Section("flux maps", fits, run_fit, "fit kinds x control subsets x starts x weights x limits"),
        ],
        ["fits of normalised flux start from a field with a plasma boundary"],
    )
