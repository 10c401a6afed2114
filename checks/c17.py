"""C17: exported files describe the equilibrium, and G-EQDSK files can be read back.

Written files are parsed here, field by field in their fixed format, and every
number compared with the equilibrium.  Enumerated: configurations, grids
(unequal sizes, off-centre domains, sizes that are not 2^n+1), signs of current
and field, walls, labels, ways of calling; then reading back over domains,
initial machine states and solved equilibria.
"""

import io
import itertools
import math
import numpy as np
from mc import eqs
from mc.core import CheckDef, Section, Violation, Inconclusive, quiet
from checks.c25 import Map, tolq

WALLS = {
    "none": None,
    "box": ([0.3, 0.3, 1.7, 1.7], [-0.9, 0.85, 0.85, -0.9]),
    "closed": ([0.3, 0.3, 1.7, 1.7, 0.3], [-0.9, 0.85, 0.85, -0.9, -0.9]),
    "seven": ([0.3, 0.28, 0.5, 1.2, 1.7, 1.72, 1.0], [-0.5, 0.6, 0.9, 0.92, 0.5, -0.55, -0.93]),
    "limit": ([0.75, 0.75, 1.7, 1.7], [-0.9, 0.85, 0.85, -0.9]),
    "triangle": ([0.05, 1.1, 2.2], [-0.9, 2.6, -0.9]),
}
EXTRA = {"offcentre": dict(Rmin=0.15, Rmax=1.7, Zmin=-0.9, Zmax=1.05, nx=33, ny=65), "odd": None}


def make(case):
    import freegs
    from freegs.machine import Wall

    wl = WALLS[case["wall"]]
    grid = case["grid"]
    eqs.GRIDS.update({"offcentre": EXTRA["offcentre"]})
    with quiet():
        f = case["field"]
        prof = eqs.StubProfile(f0=1.7 * f, df=0.2 * f, p0=case.get("p0", 2e3))
        eq = eqs.scripted(case["conf"], "33x33" if grid == "odd" else grid, sign=case["sign"],
                          wall=Wall(*wl) if wl else None, limited=bool(wl), Z0=case["Z0"], prof=prof, shift=case.get("shift", 0.0))
        if grid == "odd":
            eq = freegs.equilibrium.refine(eq, nx=40, ny=51)
    if eq.psi_bndry is None:
        raise Inconclusive("no boundary")
    if case["R0"] is not None:
        eq.tokamak.R0 = case["R0"]
    return eq


def parse_geqdsk(text):
    """(a48,3i4), (5e16.9), (2i5)"""
    lines = text.split("\n")
    head = lines[0]
    nums = [int(head[48 + 4 * k:52 + 4 * k]) for k in range(3)]
    d = {"label": head[:48], "nx": nums[1], "ny": nums[2]}
    pos = [1]

    def take(n):
        out = []
        while len(out) < n:
            line = lines[pos[0]]
            pos[0] += 1
            fields = [line[i:i + 16] for i in range(0, len(line.rstrip()), 16)]
            if len(fields) > 5:
                raise Violation("line of %d fields: %r" % (len(fields), line))
            out += [float(x) for x in fields]
        if len(out) != n:
            raise Violation("a block of %d numbers does not end with its line (%d)" % (n, len(out)))
        return np.array(out)

    v = take(20)
    (d["rdim"], d["zdim"], d["rcentr"], d["rleft"], d["zmid"], d["rmagx"], d["zmagx"], d["simagx"], d["sibdry"],
     d["bcentr"], d["cpasma"]) = v[:11]
    d["again"] = (v[11], v[13], v[15], v[17])
    nx, ny = d["nx"], d["ny"]
    for k in ("fpol", "pres", "ffprime", "pprime"):
        d[k] = take(nx)
    d["psi"] = take(nx * ny).reshape(ny, nx).T
    d["qpsi"] = take(nx)
    line = lines[pos[0]]
    pos[0] += 1
    nb, nl = int(line[:5]), int(line[5:10])
    b = take(2 * nb) if nb else np.zeros(0)
    l = take(2 * nl) if nl else np.zeros(0)
    d["rbdry"], d["zbdry"], d["rlim"], d["zlim"] = b[::2], b[1::2], l[::2], l[1::2]
    return d


def snapshot(eq):
    return [np.array(eq.psi()), eq.psi_axis, eq.psi_bndry, eq.plasmaCurrent(), sorted(eq.tokamak.getCurrents().items()), eq.tokamak.R0,
            None if eq.tokamak.wall is None else (list(eq.tokamak.wall.R), list(eq.tokamak.wall.Z))]


def equal(a, b):
    return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def text_of(eq, how, ck, label=None):
    from freegs import geqdsk, critical

    fh = io.StringIO()
    before = snapshot(eq)
    with quiet():
        if how == "plain":
            geqdsk.write(eq, fh, **({"label": label} if label else {}))
        else:
            geqdsk.write(eq, fh, label=label, oxpoints=critical.find_critical(eq.R, eq.Z, eq.psi()))
    ck.expect(equal(before, snapshot(eq)), "writing a file changed the equilibrium")
    ck.step()
    return fh.getvalue()


def judge_file(eq, text, ck, what):
    d = parse_geqdsk(text)
    nx, ny = eq.R.shape
    psi = np.array(eq.psi())
    M = Map(eq)
    sc = abs(eq.psi_bndry - M.o[2])
    ck.same((d["nx"], d["ny"]), (nx, ny), what + "grid size")
    R = d["rleft"] + d["rdim"] * np.arange(nx) / (nx - 1)
    Z = d["zmid"] - d["zdim"] / 2 + d["zdim"] * np.arange(ny) / (ny - 1)
    ck.close(R, eq.R[:, 0], what + "R grid", rtol=0, atol=1e-7)
    ck.close(Z, eq.Z[0, :], what + "Z grid", rtol=0, atol=1e-7)
    ck.close([d["rmagx"], d["zmagx"]], M.o[:2], what + "axis", rtol=0, atol=1e-6)
    ck.close(d["psi"] - d["simagx"], psi - M.o[2], what + "flux map relative to the axis", rtol=0, atol=1e-7 * sc + 1e-9 * np.abs(psi).max())
    ck.close(d["sibdry"] - d["simagx"], eq.psi_bndry - M.o[2], what + "boundary flux relative to the axis", rtol=1e-7)
    ck.close(d["again"], [d["simagx"], d["rmagx"], d["zmagx"], d["sibdry"]], what + "repeated values", rtol=0, atol=0)
    ck.close(d["cpasma"], eq.plasmaCurrent(), what + "plasma current", rtol=1e-8)
    ck.close(d["rcentr"], eq.tokamak.R0, what + "reference radius", rtol=1e-8)
    ck.close(d["bcentr"] * d["rcentr"], eq.fvac(), what + "vacuum field", rtol=1e-7)
    x = np.linspace(0, 1, nx)
    for k, f in (("fpol", eq.fpol), ("pres", eq.pressure), ("ffprime", eq.ffprime), ("pprime", eq.pprime)):
        w = np.asarray(f(x), float)
        ck.close(d[k], w, what + k, rtol=1e-8, atol=1e-8 * np.abs(w).max())
    for i in sorted({2, nx // 4, nx // 2, (3 * nx) // 4, nx - 3}):
        w = M.q(float(x[i]))
        if w is not None and x[i] > 0.02:
            ck.close(d["qpsi"][i], w, what + "q at %g" % x[i], rtol=2 * tolq(x[i]))
    ck.expect(np.all(np.isfinite(d["qpsi"])), what + "q is finite")
    ck.close(d["qpsi"][0], d["qpsi"][2], what + "q at the axis", rtol=0.1)
    if eq.tokamak.wall is None:
        ck.same(len(d["rlim"]), 0, what + "number of wall points")
    else:
        ck.same(len(d["rlim"]), len(eq.tokamak.wall.R), what + "number of wall points")
        ck.close(d["rlim"], eq.tokamak.wall.R, what + "wall R", rtol=1e-8)
        ck.close(d["zlim"], eq.tokamak.wall.Z, what + "wall Z", rtol=1e-8, atol=1e-12)
    # boundary: closed, once around the axis, on the boundary flux
    r, z = d["rbdry"], d["zbdry"]
    ck.expect(len(r) > 50, what + "number of boundary points")
    ck.close([r[0], z[0]], [r[-1], z[-1]], what + "boundary is closed", rtol=0, atol=1e-8)
    ck.close(M.at(r, z), np.ones(len(r)), what + "flux on the boundary", rtol=0, atol=5e-4)
    th = np.unwrap(np.arctan2(z - M.o[1], r - M.o[0]))
    dth = np.diff(th)
    ck.expect(np.all(dth > 0) or np.all(dth < 0), what + "boundary points in order")
    ck.close(abs(th[-1] - th[0]), 2 * math.pi, what + "boundary goes once around the axis", rtol=1e-6)
    ck.close(np.abs(dth), np.full(len(dth), 2 * math.pi / len(dth)), what + "boundary points all around", rtol=0.05)
    return d


def run_file(case, ck):
    eq = make(case)
    t1 = text_of(eq, "plain", ck)
    d = judge_file(eq, t1, ck, "%s: " % case)
    t2 = text_of(eq, "oxpoints", ck, label="A label")
    d2 = judge_file(eq, t2, ck, "%s with O- and X-points given: " % case)
    ck.expect("A label" in d2["label"], "label is in the file")
    ck.expect(t1.split("\n")[1:] == t2.split("\n")[1:], "the same contents however it is called, %s" % case)
    ck.state(case)
    ck.trace(2)
    ck.outcome(case["conf"], case["wall"], bool(eq.is_limited))


def run_divgeo(case, ck):
    from freegs import divgeo

    eq = make(case)
    M = Map(eq)
    fh = io.StringIO()
    before = snapshot(eq)
    with quiet():
        divgeo.write(eq, fh)
    ck.expect(equal(before, snapshot(eq)), "writing a DivGeo file changed the equilibrium")
    text = fh.getvalue()
    head = {}
    lines = text.split("\n")
    for l in lines:
        if "=" in l and ":=" not in l:
            k, v = l.split("=", 1)
            head[k.strip()] = v.replace(";", " ").split()[0]
    nx, ny = eq.R.shape
    w = "DivGeo file of %s: " % case
    ck.same((int(head["jm"]), int(head["km"])), (nx, ny), w + "grid size")
    ck.close(float(head["rtf"]), eq.tokamak.R0, w + "reference radius", rtol=1e-9)
    ck.close(float(head["btf"]) * float(head["rtf"]), eq.fvac(), w + "vacuum field", rtol=1e-9)
    ck.expect(abs(float(head["psib"])) > 0, w + "boundary flux")

    def block(start, n):
        i = next(k for k, l in enumerate(lines) if l.strip().startswith(start)) + 1
        out = []
        while len(out) < n:
            out += [float(x) for x in lines[i].split()]
            i += 1
        ck.same(len(out), n, w + "size of " + start)
        return np.array(out)

    ck.close(block("r(1:jm)", nx), eq.R[:, 0], w + "R grid", rtol=1e-7)
    ck.close(block("z(1:km)", ny), eq.Z[0, :], w + "Z grid", rtol=1e-7, atol=1e-9)
    psi = block("((psi(j,k)-psib", nx * ny).reshape(ny, nx).T
    want = np.array(eq.psi()) - eq.psi_bndry
    ck.close(psi, want, w + "flux relative to the boundary", rtol=0, atol=1e-7 * np.abs(want).max())
    ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("divgeo", case["conf"], nx < ny)


# ------------------------------------------------------------------ reading
_solved = {}


def solved(sign, field, dom, nx, ny, wall, R0):
    import freegs

    key = (sign, field, tuple(dom), nx, ny, wall, R0)
    tok = freegs.machine.TestTokamak()
    wl = WALLS[wall]
    tok.wall = freegs.machine.Wall(*wl) if wl else None
    if R0 is not None:
        tok.R0 = R0
    eq = freegs.Equilibrium(tok, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny)
    p = freegs.jtor.ConstrainPaxisIp(eq, 1e3, sign * 2e5, field * 2.0)
    con = freegs.control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.8)], isoflux=[(1.1, -0.6, 1.1, 0.8)])
    with quiet():
        freegs.solve(eq, p, con)
    return eq


def run_read(case, ck):
    import freegs
    from freegs import geqdsk

    w = "%s: " % case
    try:
        eq = solved(case["sign"], case["field"], case["dom"], case["nx"], case["ny"], case["wall"], case["R0"])
    except (RuntimeError, ValueError) as e:
        raise Inconclusive("starting equilibrium does not converge")
    shape = (case["nx"], case["ny"])
    if case.get("as"):
        # a file on a grid which is not 2^n + 1
        with quiet():
            eq = freegs.equilibrium.refine(eq, nx=case["as"][0], ny=case["as"][1])
        shape = tuple(case["read as"])
    text = text_of(eq, "plain", ck)
    judge_file(eq, text, ck, w)
    tok = freegs.machine.TestTokamak()
    if case["machine"] == "currents":
        for i, (n, c) in enumerate(tok.coils):
            c.current = (-1) ** i * 3e4
    kw = {}
    if case["domain"]:
        kw["domain"] = case["domain"]
    if case["sol"]:
        kw["fit_sol"] = True
    with quiet():
        e2 = geqdsk.read(io.StringIO(text), tok, **kw)
    ck.step()
    box = case["domain"] or case["dom"]
    ck.expect(e2.tokamak is tok, w + "machine of the equilibrium read")
    ck.close([e2.Rmin, e2.Rmax, e2.Zmin, e2.Zmax], box, w + "domain read", rtol=0, atol=1e-7)
    if not case["domain"]:
        ck.same(e2.R.shape, shape, w + "grid read")
    else:
        ck.expect(e2.dR <= eq.dR * (1 + 1e-6) and e2.dZ <= eq.dZ * (1 + 1e-6), w + "resolution at least that of the file")
    ck.close(e2.plasmaCurrent(), eq.plasmaCurrent(), w + "plasma current read", rtol=0.02)
    x = np.linspace(0, 1, 9)
    for n, tol in (("fpol", 1e-6), ("pressure", 1e-6), ("pprime", 0.02), ("ffprime", 0.02)):
        a, b = np.asarray(getattr(e2, n)(x), float), np.asarray(getattr(eq, n)(x), float)
        ck.close(a, b, w + n + " read", rtol=0, atol=tol * np.abs(b).max())
    ck.close(e2.fvac(), eq.fvac(), w + "vacuum field read", rtol=1e-6)
    ck.close(tok.R0, eq.tokamak.R0, w + "reference radius read", rtol=1e-7)
    if eq.tokamak.wall is not None:
        ck.close(list(tok.wall.R), list(eq.tokamak.wall.R), w + "wall R read", rtol=1e-7)
        ck.close(list(tok.wall.Z), list(eq.tokamak.wall.Z), w + "wall Z read", rtol=1e-7)
    # the flux in the plasma
    psn = (eq.psi() - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    inn = (np.asarray(eq.mask) > 0) & (psn < 0.98)
    r, z = eq.R[inn], eq.Z[inn]
    k = (r > e2.Rmin) & (r < e2.Rmax) & (z > e2.Zmin) & (z < e2.Zmax)
    g = (e2.psiRZ(r[k], z[k]) - e2.psi_axis) / (e2.psi_bndry - e2.psi_axis)
    ck.close(g, psn[inn][k], w + "normalised flux in the plasma, read", rtol=0, atol=0.05)
    ck.close(e2.psi_bndry - e2.psi_axis, eq.psi_bndry - eq.psi_axis, w + "flux from axis to boundary, read", rtol=0.05)
    ck.close(e2.magneticAxis()[:2], eq.magneticAxis()[:2], w + "axis read", rtol=0, atol=0.02)
    if case["again"]:
        # what was read describes the same plasma when written once more
        with quiet():
            t2 = io.StringIO()
            geqdsk.write(e2, t2)
        d, d2 = parse_geqdsk(text), judge_file(e2, t2.getvalue(), ck, w + "written again: ")
        ck.close(d2["cpasma"], d["cpasma"], w + "current written again", rtol=0.02)
        ck.close(d2["pres"], d["pres"], w + "pressure written again", rtol=0, atol=1e-5 * d["pres"].max())
        ck.step()
    ck.state(case)
    ck.trace()
    ck.outcome("read", case["sign"], case["field"], bool(case["domain"]), case["nx"] < case["ny"])


def check(tier):
    quick = tier == "quick"
    grids = ["33x33", "33x65", "65x33", "65x65", "offcentre", "odd"]
    files, dg = [], []
    for conf, wall in (("lower", "none"), ("upper", "none"), ("double", "box"), ("lowerS", "seven"), ("lower", "limit"),
                       ("upper", "limit"), ("none", "box"), ("lower", "triangle"), ("lower", "closed")):
        for g in grids:
            for s, f in itertools.product((1.0, -1.0), repeat=2):
                for Z0 in (0.0, 0.06):
                    for R0 in (None, 0.8):
                        c = dict(conf=conf, wall=wall, grid=g, sign=s, field=f, Z0=Z0, R0=R0)
                        if quick and (g == "65x65" or (Z0 == 0) == (g != "odd") or (R0 is None) == (f > 0)):
                            continue
                        if quick and (grids.index(g) + (s > 0) + (f > 0)) % 2:
                            continue
                        files.append(c)
                        dg.append(c)
    # domains entirely above or below the midplane
    for k, (conf, shift, s, f) in enumerate(itertools.product(("lower", "upper"), (2.0, -2.0), (1.0, -1.0), (1.0, -1.0))):
        if quick and s * f < 0:
            continue
        c = dict(conf=conf, wall="none", grid=("33x33", "offcentre", "65x33")[k % 3], sign=s, field=f, Z0=0.0, R0=None, shift=shift)
        files.append(c)
        dg.append(c)
    reads = []
    doms = [(0.2, 2.0, -1.0, 1.0), (0.2, 1.9, -1.05, 1.1), (0.1, 2.0, -0.95, 1.0)]
    for (nx, ny), dom, s, f, wall, mach, sol in itertools.product(
            [(33, 33), (65, 33), (33, 65)], doms, (1.0, -1.0), (1.0, -1.0), ("none", "box", "triangle"), ("zero", "currents"), (False, True)):
        c = dict(nx=nx, ny=ny, dom=list(dom), sign=s, field=f, wall=wall, machine=mach, sol=sol, domain=None, R0=None if f > 0 else 0.85, again=not sol)
        if quick and (sol != (mach == "currents") or wall != ("none" if f > 0 else "box" if s > 0 else "triangle") or (nx + ny > 66 and dom != doms[1])):
            continue
        reads.append(c)
    for s in (1.0, -1.0):
        for domain in ([0.3, 1.9, -0.95, 0.97], [0.25, 1.85, -1.1, 1.1], [0.15, 2.1, -1.0, 1.0]):
            reads.append(dict(nx=33, ny=33, dom=list(doms[0]), sign=s, field=1.0, wall="box", machine="zero", sol=False, domain=domain, R0=None, again=False))
        for a, b in (((40, 30), (65, 33)), ((30, 40), (33, 65)), ((40, 33), (65, 33)), ((33, 51), (33, 65)), ((37, 45), (65, 65)), ((70, 70), (129, 129))):
            for f in (1.0, -1.0):
                if quick and (s * f < 0 or (s < 0 and a[0] in (40, 33, 70))):
                    continue
                r = dict(nx=33, ny=33, dom=list(doms[0]), sign=s, field=f, wall="box", machine="zero", sol=False, domain=None, R0=None, again=False)
                reads.append(dict(r, **{"as": list(a), "read as": list(b)}))
    return CheckDef(
        "C17",
        [
            Section("G-EQDSK files", files, run_file, "configurations x grids (incl. off-centre, not 2^n+1, and domains away from the midplane) x signs of current and field x walls x reference radius", timeout=600),
            Section("DivGeo files", dg, run_divgeo, "the same", timeout=600),
            Section("reading back", reads, run_read, "solved equilibria over grids, domains, signs, walls, initial machine currents, fits, new domains", timeout=600),
        ],
        ["the files are in the fixed formats of freeqdsk; numbers have 9 digits"],
    )
