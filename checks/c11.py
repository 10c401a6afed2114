"""C11: plasma profiles meet their targets and give consistent quantities.

Enumerated: profile kinds x parameter lattice x flux fields (diverted up/down,
double null, limited, no X-point) x grids x signs, and all pairs of fields in
sequence on the same profile object.
Oracle: the core by graph reachability, Gauss-Legendre integrals of the
profiles' own p' and ff', the definitions of the targets.
"""

import functools
import itertools
import numpy as np
from mc.core import CheckDef, Section, Inconclusive
from mc import eqs, ref
from checks.c10 import expected

MU0 = ref.MU0
GX, GW = np.polynomial.legendre.leggauss(64)


def gauss(f, a, b=1.0, n=8):
    """Composite Gauss-Legendre (integrands with end point kinks)"""
    # substitution clustering points at both ends
    t = 0.5 * (GX + 1)
    s = t * t * (3 - 2 * t)
    ds = 6 * t * (1 - t)
    x = a + (b - a) * s
    return float(np.sum(np.array([float(f(v)) for v in x]) * ds * GW) * 0.5 * (b - a))


@functools.lru_cache(None)
def field(name, grid, sign):
    if name == "limited":
        return eqs.scripted("lower", grid, sign, wall=eqs.rectangle(0.75, 1.45, -0.8, 0.8), limited=True)
    return eqs.scripted(name, grid, sign)


def core(eq, psi):
    """Expected core cells and normalised flux; independent of eq.mask"""
    from freegs.critical import find_critical

    opt, xpt = find_critical(eq.R, eq.Z, psi)
    pa = opt[0][2]
    if eq.check_limited and eq.tokamak.wall:
        pb = eq.psi_bndry  # decided in C23
    elif xpt:
        pb = xpt[0][2]
    else:
        pb = psi[0, 0]
    x = (psi - pa) / (pb - pa)
    if xpt or eq.check_limited:
        near = lambda r, z: (int(np.argmin(np.abs(eq.R[:, 0] - r))), int(np.argmin(np.abs(eq.Z[0, :] - z))))
        inside = {(int(i), int(j)) for i, j in np.argwhere(x < 1.0)}
        m = np.zeros(psi.shape, bool)
        for c in expected(inside, psi.shape, near(*opt[0][:2]), [near(a, b) for a, b, _ in xpt]):
            m[c] = True
    else:
        m = x < 1.0
    return m, x, pa, pb


def romb2(f, eq):
    from scipy.integrate import romb

    return romb(romb(f)) * eq.dR * eq.dZ


def make(case, eq):
    from freegs import jtor

    p = case["par"]
    if case["kind"] == "paxis":
        return jtor.ConstrainPaxisIp(eq, p["target"], p["Ip"], p["fvac"], alpha_m=p["m"], alpha_n=p["n"], Raxis=p["Raxis"])
    if case["kind"] == "betap":
        return jtor.ConstrainBetapIp(eq, p["target"], p["Ip"], p["fvac"], alpha_m=p["m"], alpha_n=p["n"], Raxis=p["Raxis"])
    return jtor.ProfilesPprimeFfprime(FUNCS[p["pp"]], FUNCS[p["ff"]], p["fvac"])


FUNCS = {
    "linear": lambda x: -3e4 * (1.0 - x),
    "flat": lambda x: 2e4 + 0.0 * x,
    "poly": lambda x: 1e4 * (1 - x**2) - 4e3 * (1 - x) ** 3,
    "zero": lambda x: 0.0 * x,
    "ff": lambda x: 0.05 * (1.0 - x) * (1 + x),
    "ffneg": lambda x: -0.03 * (1.0 - x**3),
}


def judge(case, prof, eq, psi, J, ck, what):
    m, x, pa, pb = core(eq, psi)
    par = case["par"]
    ck.state(what, case["kind"], par, case.get("grid"), case.get("sign"))
    xc = np.clip(x, 0, 1)
    pp = np.array([[float(prof.pprime(v)) for v in row] for row in xc])
    ff = np.array([[float(prof.ffprime(v)) for v in row] for row in xc])
    want = np.where(m, eq.R * pp + ff / (MU0 * eq.R), 0.0)
    scale = np.abs(want).max()
    ck.expect(np.shape(J) == psi.shape, "shape of the current density " + what)
    # cells exactly on the boundary to rounding may fall either side
    soft = np.abs(x - 1) < 1e-7
    ck.close(np.where(soft, 0, J), np.where(soft, 0, want), "current density = R p' + ff'/(mu0 R) in the core, zero outside, " + what, rtol=1e-7, atol=1e-9 * scale)
    # array arguments of p' and ff'
    ck.close(prof.pprime(xc), pp, "p' of an array " + what, rtol=1e-9, atol=1e-12 * np.abs(pp).max())
    ck.close(prof.ffprime(xc), ff, "ff' of an array " + what, rtol=1e-9, atol=1e-12 * np.abs(ff).max())
    dpsi = pa - pb
    if case["kind"] != "given":
        ck.close(romb2(J, eq), par["Ip"], "total current " + what, rtol=1e-6)
        for v in (0.0, 0.2, 0.7, 0.95, 1.0):
            shape = (1 - v ** par["m"]) ** par["n"]
            ck.close(prof.pprime(v), prof.pprime(0.0) * shape, "p' shape " + what, rtol=1e-9, atol=1e-12 * abs(prof.pprime(0.0)))
            ck.close(prof.ffprime(v), prof.ffprime(0.0) * shape, "ff' shape " + what, rtol=1e-9, atol=1e-12 * abs(prof.ffprime(0.0)))
        for v in (1.0, 1.1, 3.0):
            ck.close([prof.pprime(v), prof.ffprime(v)], [0, 0], "p', ff' outside " + what, atol=1e-12 * scale)
        # relative weight of the two terms: p' R + ff'/(mu0 R) with reference radius
    # integrals from the edge
    lev = [0.0, 0.13, 0.5, 0.8, 1.0]
    P = np.array([gauss(prof.pprime, v) for v in lev]) * dpsi
    F2 = np.array([gauss(prof.ffprime, v) for v in lev]) * dpsi * 2 + par["fvac"] ** 2
    if np.all(F2 > 1e-6):
        F = np.sign(par["fvac"]) * np.sqrt(F2)
    else:
        F = None
    fs = [(prof.pressure, P, "pressure", np.abs(P).max())]
    if F is not None:
        fs.append((prof.fpol, F, "f", np.abs(F).max()))
    for fun, ref_, name, s in fs:
        tol = dict(rtol=1e-6, atol=1e-7 * s)
        for v, w in zip(lev, ref_):
            ck.close(fun(v), w, "%s(%g) %s" % (name, v, what), **tol)
            ck.close(fun(np.float64(v)), w, "%s(%g) numpy scalar %s" % (name, v, what), **tol)
        ck.close(fun(list(lev)), ref_, name + " of a list " + what, **tol)
        ck.close(fun(tuple(lev)), ref_, name + " of a tuple " + what, **tol)
        arr = np.array(lev)
        ck.close(fun(arr), ref_, name + " of an array " + what, **tol)
        ck.expect(np.array_equal(arr, lev), "argument is not modified")
        two = np.array([lev, lev[::-1]])
        ck.close(fun(two), [ref_, ref_[::-1]], name + " of a 2D array " + what, **tol)
        ck.close(fun(two[:, ::2]), [ref_[::2], ref_[::-1][::2]], name + " of a strided array " + what, **tol)
        out = np.full(5, 9.0)
        r = fun(arr, out)
        ck.close(r, ref_, name + " with output array " + what, **tol)
        ck.step(6)
    ck.close(prof.pressure(1.0), 0.0, "pressure vanishes at the edge " + what, atol=1e-9 * (np.abs(P).max() + 1))
    if F is not None:
        ck.close(prof.fpol(1.0), par["fvac"], "vacuum f at the edge " + what, rtol=1e-9)
    ck.same(float(prof.fvac()), float(par["fvac"]), "vacuum f " + what)
    if case["kind"] == "paxis":
        ck.close(prof.pressure(0.0), par["target"], "axis pressure " + what, rtol=1e-6, atol=1e-9)
    if case["kind"] == "betap":
        # interior core cells, definition of poloidal beta
        mm = m.copy()
        p = np.zeros(psi.shape)
        for i, j in np.argwhere(mm):
            if 0 < i < psi.shape[0] - 1 and 0 < j < psi.shape[1] - 1 and 0 <= x[i, j] < 1:
                p[i, j] = float(prof.pressure(float(x[i, j])))
        B2 = (eq.Br(eq.R, eq.Z) ** 2 + eq.Bz(eq.R, eq.Z) ** 2) * (mm if eq.psi_bndry is not None else 1.0)
        bp = 2 * MU0 * romb2(p * eq.R, eq) / romb2(B2 * eq.R, eq)
        ck.close(bp, par["target"], "poloidal beta " + what, rtol=1e-5, atol=1e-9)
    ck.outcome(case["kind"], "sign %d" % np.sign(dpsi), "limited" if eq.check_limited else "X" if eq.psi_bndry is not None else "none")


def run(case, ck):
    eq = field(case["field"], case["grid"], case["sign"])
    psi = eq.psi()
    p0 = psi.copy()
    prof = make(case, eq)
    kw = {}
    if case["kind"] == "given" and case["field"] == "limited":
        kw["psi_bndry"] = eq.psi_bndry
    J = prof.Jtor(eq.R, eq.Z, psi, **kw)
    ck.step()
    ck.expect(np.array_equal(psi, p0), "flux is not modified")
    judge(case, prof, eq, psi, J, ck, "on " + case["field"])
    J2 = prof.Jtor(eq.R, eq.Z, psi, **kw)
    ck.close(J2, J, "second evaluation", rtol=1e-9, atol=1e-9 * np.abs(J).max())
    ck.trace()


def run_sequence(case, ck):
    """The same profile object on one field after another"""
    from freegs import jtor

    eq = eqs.scripted("lower", "33x33", case["sign"])
    prof = make(case, eq)
    for n, (conf, I) in enumerate(case["seq"]):
        # change the coils of the same equilibrium
        up, lo, vf, sol = eqs.CONF[conf]
        for c, f in zip(("XU", "XL", "VU", "VL", "S"), (up, lo, vf, vf, sol)):
            eq.tokamak[c].current = case["sign"] * f * I
        psi = eq.psi()
        J = prof.Jtor(eq.R, eq.Z, psi)
        ck.step()
        judge(case, prof, eq, psi, J, ck, "step %d of %s" % (n, case["seq"]))
    # solving with it reports the target
    if case["kind"] != "given":
        eq.solve(prof)
        ck.close(eq.plasmaCurrent(), case["par"]["Ip"], "current after a solve", rtol=1e-6)
        ck.close(romb2(eq.Jtor, eq), case["par"]["Ip"], "integral of the current density", rtol=1e-6)
    ck.trace()


def run_refuse(case, ck):
    from freegs import jtor

    eq = field("lower", "33x33", 1.0)
    cls = jtor.ConstrainPaxisIp if case["kind"] == "paxis" else jtor.ConstrainBetapIp
    ck.raises(ValueError, lambda: cls(eq, 1.0, 1e5, 1.0, **case["bad"]), "negative exponents %s" % case["bad"])
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("refused")


def run_given_functions(case, ck):
    """Supplied p and f functions are used as given"""
    from freegs import jtor

    pf = (lambda x: 5.0 + 2 * np.asarray(x)) if case["p"] else None
    ff = (lambda x: 7.0 - np.asarray(x)) if case["f"] else None
    prof = jtor.ProfilesPprimeFfprime(FUNCS["linear"], FUNCS["ff"], case["fvac"], p_func=pf, f_func=ff)
    eq = field("lower", "33x33", 1.0)
    prof.Jtor(eq.R, eq.Z, eq.psi())
    m, x, pa, pb = core(eq, eq.psi())
    for v in (0.0, 0.3, [0.1, 0.9], np.array([[0.2, 1.0]])):
        a = np.asarray(v, dtype=float)
        P = 5.0 + 2 * a if pf else np.vectorize(lambda t: gauss(FUNCS["linear"], t) * (pa - pb))(a)
        F = 7.0 - a if ff else np.vectorize(lambda t: np.copysign(np.sqrt(2 * gauss(FUNCS["ff"], t) * (pa - pb) + case["fvac"] ** 2), case["fvac"]))(a)
        ck.close(prof.pressure(v), P, "pressure", rtol=1e-6, atol=1e-6)
        ck.close(prof.fpol(v), F, "f", rtol=1e-6)
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome(case["p"], case["f"])


def check(tier):
    q = tier == "quick"
    fields = ["lower", "upper", "double", "limited", "none"]
    grids = ["33x33", "17x33"] if q else ["33x33", "17x33", "33x65", "65x33"]
    par = []
    for Ip in (2e5, 4e4):
        for mn in [(1.0, 2.0), (2.0, 1.0), (1.5, 1.2), (3.0, 1.0)][: 3 if q else 4]:
            for Ra, fv in ((1.0, 2.0), (0.6, -0.5)):
                par.append(dict(Ip=Ip, m=mn[0], n=mn[1], Raxis=Ra, fvac=fv))
    # steep at the edge
    par += [dict(Ip=2e5, m=2.0, n=0.5, Raxis=1.0, fvac=2.0), dict(Ip=-1e5, m=0.8, n=0.75, Raxis=0.9, fvac=1.0)]
    cases = []
    for g, f, s, p, k in itertools.product(grids, fields, (1.0, -1.0), par, ("paxis", "betap")):
        for t in ((0.0, 1e3, 2e4) if k == "paxis" else (0.05, 0.8)):
            # betap on every field: the current may flow either way
            for sg in (s, -s) if not q else (s,):
                cases.append(dict(kind=k, grid=g, field=f, sign=s, par=dict(p, Ip=p["Ip"] * sg, target=t)))
    for g, f, s in itertools.product(grids, fields, (1.0, -1.0)):
        for pp, ff in itertools.product(("linear", "flat", "poly", "zero"), ("ff", "ffneg", "zero", "flat")):
            if f == "none" and "flat" in (pp, ff):
                continue  # without a boundary, only profiles which vanish at the edge
            if ff == "flat":
                continue
            for fv in (1.5, -0.4):
                cases.append(dict(kind="given", grid=g, field=f, sign=s, par=dict(pp=pp, ff=ff, fvac=fv)))
    seqs = list(itertools.product([("lower", 3e5), ("upper", 3e5), ("double", 2.5e5), ("none", 3e5)], repeat=2 if q else 3))
    sq = []
    for s in seqs:
        for g in (1.0, -1.0):
            sq.append(dict(kind="paxis", sign=g, seq=list(s), par=dict(Ip=g * 1e5, m=1.0, n=2.0, Raxis=1.2, fvac=1.0, target=500.0)))
            sq.append(dict(kind="betap", sign=g, seq=list(s), par=dict(Ip=g * 1e5, m=2.0, n=1.0, Raxis=1.0, fvac=-1.0, target=0.3)))
            if not any(c[0] == "none" for c in s):
                sq.append(dict(kind="given", sign=g, seq=list(s), par=dict(pp="poly", ff="ff", fvac=1.0)))
    bad = [dict(kind=k, bad=b) for k in ("paxis", "betap") for b in (dict(alpha_m=-1.0), dict(alpha_n=-0.5), dict(alpha_m=-2, alpha_n=-1))]
    given = [dict(p=a, f=b, fvac=v) for a in (False, True) for b in (False, True) for v in (2.0, -2.0)]
    return CheckDef(
        "C11",
        [
            Section("profiles", cases, run, "kinds x parameters x fields %s x grids %s x signs" % (fields, grids)),
            Section("sequences", sq, run_sequence, "all sequences of %d fields on one profile object" % (2 if q else 3)),
            Section("refused", bad, run_refuse, "negative exponents"),
            Section("given functions", given, run_given_functions, "p and f functions present or not"),
        ],
        ["integrals over the domain use the same quadrature as the reported plasma current", "without X-point or limiter, profiles vanish at the edge"],
    )
