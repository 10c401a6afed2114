"""C13: the nonlinear solve as a reactive system.

The Picard loop is closed with an environment: an Equilibrium whose linear
solve answers with any combination of (flux change, boundary flux, limited).
All answer sequences are explored statelessly on the real loop: a run that
asks for more answers than the prefix holds is extended by every letter.  The
model is the documented stopping rule.  A second section runs the real linear
solve and applies the same model to what it observes.
"""

import itertools
import math
import numpy as np
from mc.core import CheckDef, Section
from mc import eqs


class Need(Exception):
    pass


_cls = None


def scripted_class():
    global _cls
    if _cls is None:
        import freegs

        class Scripted(freegs.Equilibrium):
            """The linear solve is answered by the script"""

            answers = None

            def solve(self, profiles, Jtor=None, psi=None, psi_bndry=None):
                if self.answers is None:
                    raise AssertionError("no script")
                n = len(self.log)
                if psi is None:
                    psi = self.psi()
                psi = np.array(psi, dtype=float)
                if n >= len(self.answers):
                    raise Need()
                dpsi, bndry, lim = self.answers[n]
                prev = self.psi_bndry
                rec = dict(
                    psi=psi,
                    psi_bndry=psi_bndry,
                    check=bool(self.check_limited),
                    prev=prev,
                    profiles=profiles,
                    currents=[float(c.current) for _, c in self.tokamak.coils],
                    ncon=len(self.conlog),
                )
                new = psi + self.delta(dpsi) * self.pattern
                self._updatePlasmaPsi(new - (self.psi() - self.plasma_psi))
                # what the linear solve reports
                self.psi_bndry = self.bvalue(bndry)
                self.is_limited = lim
                rec["after"] = np.array(self.psi())
                rec["bndry"] = self.psi_bndry
                rec["lim"] = lim
                self.log.append(rec)

        _cls = Scripted
    return _cls


B0 = 0.0625
_eq = []


def setup(opt, answers):
    from freegs.machine import Machine
    from freegs.coil import Coil

    if not _eq:
        tok = Machine([("A", Coil(1.0, 1.2)), ("B", Coil(1.0, -1.2))])
        eq = scripted_class()(tok, Rmin=0.4, Rmax=1.6, Zmin=-0.8, Zmax=0.8, nx=5, ny=5, order=2)
        _eq.append((eq, np.array(eq.plasma_psi)))
    # every run starts from the same state
    eq, plasma = _eq[0]
    eq._updatePlasmaPsi(plasma.copy())
    tok = eq.tokamak
    a, b = tok.coils[0][1], tok.coils[1][1]
    a.current, b.current = 1e5, 1.5e5
    eq.check_limited = opt.get("eqcheck", False)
    eq.answers = answers
    eq.log, eq.conlog = [], []
    eq.psi_bndry = opt.get("b0")
    eq.is_limited = opt.get("lim0", False)
    p = np.zeros((5, 5))
    p[2, 2], p[1, 3] = 1.0, -0.5
    eq.pattern = p
    rng0 = float(np.ptp(eq.psi()))
    rtol, atol = opt["rtol"], opt["atol"]

    def delta(k):
        # changes in units of the tolerances; the range of psi hardly changes
        if k == "nan":
            return math.nan
        big = max(atol, rtol * rng0)
        return {"lo": 0.3 * big, "hi": 4.0 * big, "-hi": -4.0 * big, "0": 0.0}[k]

    eq.delta = delta
    eq.lastb = None

    def bvalue(k):
        if k is None:
            eq.lastb = None if eq.lastb is None else eq.lastb + 10.0
            return None
        if k == "nan":
            return math.nan
        if k == "zero":
            eq.lastb = 0.0
            return np.float64(0.0)
        if eq.lastb is None:
            eq.lastb = np.float64(1.0) * opt.get("bsign", 1.0) * B0
            return eq.lastb
        big = max(atol, rtol * abs(eq.lastb))
        eq.lastb = eq.lastb + {"same": 0.0, "lo": 0.3 * big, "-lo": -0.3 * big, "hi": 4 * big, "-hi": -4 * big}[k]
        return eq.lastb

    eq.bvalue = bvalue

    class Control:
        def __call__(self, e):
            eq.conlog.append(len(eq.log))
            tok.coils[0][1].current += 1e3 * (1 + len(eq.conlog))

    return eq, (Control() if opt.get("control") else None)


def converged(opt, rec, prevb, first):
    ch = np.amax(np.abs(rec["psi"] - rec["after"]))
    rng = np.ptp(rec["after"])
    flux = ch < opt["atol"] or ch / rng < opt["rtol"]
    b = rec["bndry"]
    if b is None:
        bd = False
    else:
        d = abs(prevb - b)
        bd = d < opt["atol"] or (b != 0 and d / abs(b) < opt["rtol"])
    lim = rec["lim"] or not opt["wait"]
    return bool(flux and bd and lim), ch, ch / rng


def execute(opt, answers):
    """One run of the real loop.  Returns (eq, result kind, value)"""
    import freegs

    eq, con = setup(opt, answers)
    prof = object()
    kw = dict(
        rtol=opt["rtol"],
        atol=opt["atol"],
        blend=opt["blend"],
        maxits=opt["maxits"],
        convergenceInfo=opt["info"],
        check_limited=opt["check"],
        wait_for_limited=opt["wait"],
        limit_it=opt["limit_it"],
        psi_bndry=opt["psi_bndry"],
    )
    eq.start = None
    eq.prof = prof
    psi0 = np.array(eq.psi())
    try:
        val = freegs.solve(eq, prof, con, **kw)
        return eq, con, "returned", val, psi0
    except Need:
        return eq, con, "need", None, psi0
    except RuntimeError as e:
        return eq, con, "raised", e, psi0


def judge(opt, eq, con, kind, val, psi0, ck):
    """Compare the run with the model of the loop"""
    log = eq.log
    n = len(log)
    prevb = 0.0
    everlim = False
    hist = []
    for k, rec in enumerate(log):
        ck.same(rec["profiles"] is eq.prof, True, "profiles passed to solve %d" % k)
        ck.same(rec["check"], bool(opt["check"] and (k >= opt["limit_it"] or everlim)), "limiter checking in iteration %d" % k)
        if rec["check"]:
            ck.same(rec["psi_bndry"], rec["prev"], "boundary used in iteration %d while checking the limiter" % k)
        else:
            ck.same(rec["psi_bndry"], opt["psi_bndry"], "boundary used in iteration %d" % k)
        ck.same(rec["ncon"], (k + 1) if con else 0, "control applied before iteration %d" % k)
        if k > 0:
            # blended with the previous input, after re-applying control
            before = log[k - 1]
            coil = np.zeros_like(before["after"])
            if con:
                d = rec["currents"][0] - before["currents"][0]
                coil = d * np.asarray(eq.tokamak.coils[0][1].controlPsi(eq.R, eq.Z))
            want = (1 - opt["blend"]) * (before["after"] + coil) + opt["blend"] * before["psi"]
            ck.close(rec["psi"], want, "flux passed to iteration %d" % k, rtol=1e-9, atol=1e-13)
        everlim = everlim or rec["lim"]
        conv, ch, rel = converged(opt, rec, prevb, k == 0)
        hist.append((ch, rel))
        if rec["bndry"] is not None:
            prevb = rec["bndry"]
        last = k == n - 1
        if conv:
            ck.expect(last and kind == "returned", "converged in iteration %d but %s after %d" % (k, kind, n))
        elif opt["maxits"] and k + 1 > opt["maxits"]:
            ck.expect(last and kind == "raised", "iteration limit %s exceeded but %s after %d" % (opt["maxits"], kind, n))
        else:
            ck.expect(not last or kind == "need", "not converged in iteration %d but %s" % (k, kind))
    if kind == "returned":
        ck.same(len(eq.conlog), n if con else 0, "control applied")
        ck.expect(np.array_equal(eq.psi(), log[-1]["after"]), "the returned equilibrium is the converged one")
        if opt["info"]:
            ck.expect(isinstance(val, tuple) and len(val) == 2, "convergence history: %r" % (val,))
            ck.close(np.asarray(val[0]), np.array([h[0] for h in hist]), "history of changes", rtol=1e-9, atol=1e-15)
            ck.close(np.asarray(val[1]), np.array([h[1] for h in hist]), "history of relative changes", rtol=1e-9, atol=1e-15)
            ck.same([len(val[0]), len(val[1])], [n, n], "entries in the history")
        else:
            ck.same(val, None, "result without convergence information")
    ck.outcome(kind, n)


def run_tree(case, ck):
    opt = case["opt"]
    alphabet = [tuple(a) for a in itertools.product(case["dpsi"], case["bndry"], case["lim"])]
    stack = [[tuple(a) for a in case["prefix"]]]
    while stack:
        pre = stack.pop()
        eq, con, kind, val, psi0 = execute(opt, pre)
        judge(opt, eq, con, kind, val, psi0, ck)
        ck.step()
        ck.state(case["opt"], pre)
        if kind == "need":
            if len(pre) < case["depth"]:
                for a in reversed(alphabet):
                    stack.append(pre + [a])
        else:
            ck.trace()


# ------------------------------------------------------------ the real solve
def run_real(case, ck):
    import freegs
    from freegs.jtor import ConstrainPaxisIp

    base = eqs.scripted(case["conf"], case["grid"], sign=case["sign"], wall=eqs.rectangle(*case["wall"]) if case["wall"] else None)

    class Rec(type(base)):
        def solve(self, profiles, Jtor=None, psi=None, psi_bndry=None):
            rec = dict(psi=np.array(psi if psi is not None else self.psi()), psi_bndry=psi_bndry, check=bool(self.check_limited), prev=self.psi_bndry, profiles=profiles, ncon=len(self.conlog), currents=[float(c.current) for _, c in self.tokamak.coils])
            super().solve(profiles, Jtor=Jtor, psi=psi, psi_bndry=psi_bndry)
            rec.update(after=np.array(self.psi()), bndry=self.psi_bndry, lim=bool(self.is_limited))
            self.log.append(rec)

    eq = base
    eq.__class__ = Rec
    eq.log, eq.conlog = [], []
    s = case["sign"]
    opt = dict(rtol=case["rtol"], atol=1e-10, blend=case["blend"], maxits=case["maxits"], info=True, check=case["check"], wait=case["wait"], limit_it=case["limit_it"], psi_bndry=None)
    prof = ConstrainPaxisIp(eq, 1e3, s * 2e5, s * 2.0)
    eq.prof = prof
    inner = freegs.control.constrain(xpoints=[(1.0, -0.7), (1.0, 0.72)], isoflux=[(1.0, -0.7, 1.0, 0.72)])

    class Control:
        def __call__(self, e):
            eq.conlog.append(len(eq.log))
            inner(e)

    con = Control() if case["control"] else None
    psi0 = eq.psi()
    try:
        val = freegs.solve(eq, prof, con, rtol=opt["rtol"], atol=opt["atol"], blend=opt["blend"], maxits=opt["maxits"], convergenceInfo=True, check_limited=opt["check"], wait_for_limited=opt["wait"], limit_it=opt["limit_it"])
        kind = "returned"
    except RuntimeError as e:
        kind, val = "raised", None
    except ValueError as e:
        ck.outcome("lost the plasma")
        ck.note("plasma lost")
        return
    judge2(opt, eq, con, kind, val, ck)
    ck.step(len(eq.log))
    ck.state(case)
    ck.trace()


def judge2(opt, eq, con, kind, val, ck):
    log, prevb, everlim, hist = eq.log, 0.0, False, []
    n = len(log)
    for k, rec in enumerate(log):
        ck.same(rec["check"], bool(opt["check"] and (k >= opt["limit_it"] or everlim)), "limiter checking in iteration %d" % k)
        ck.same(rec["ncon"], (k + 1) if con else 0, "control applied before iteration %d" % k)
        if rec["check"]:
            ck.same(rec["psi_bndry"], rec["prev"], "boundary used in iteration %d" % k)
        if k and opt["blend"] == 0.0 and not con:
            ck.close(rec["psi"], log[k - 1]["after"], "flux passed to iteration %d" % k, rtol=1e-9, atol=1e-13)
        elif k and not con:
            ck.close(rec["psi"], (1 - opt["blend"]) * log[k - 1]["after"] + opt["blend"] * log[k - 1]["psi"], "flux passed to iteration %d" % k, rtol=1e-9, atol=1e-13)
        everlim = everlim or rec["lim"]
        conv, ch, rel = converged(opt, rec, prevb, k == 0)
        hist.append(ch)
        if rec["bndry"] is not None:
            prevb = rec["bndry"]
        last = k == n - 1
        if conv:
            ck.expect(last and kind == "returned", "converged in iteration %d but %s after %d" % (k, kind, n))
        elif k + 1 > opt["maxits"]:
            ck.expect(last and kind == "raised", "iteration limit exceeded but %s" % kind)
        else:
            ck.expect(not last, "not converged in iteration %d but %s" % (k, kind))
    if kind == "returned":
        ck.close(np.asarray(val[0]), np.array(hist), "history of changes", rtol=1e-9, atol=1e-15)
    ck.outcome("real", kind, min(n, 12), bool(eq.is_limited))


def check(tier):
    q = tier == "quick"
    tol = [dict(rtol=1e-3, atol=1e-10), dict(rtol=1e-9, atol=1e-3)]
    base = dict(blend=0.0, maxits=50, info=True, check=False, wait=False, limit_it=0, psi_bndry=None, control=False)
    cases = []

    def add(opt, dpsi, bndry, lim, depth, split=1):
        o = dict(base, **opt)
        cases.append(dict(opt=o, dpsi=dpsi, bndry=bndry, lim=lim, depth=0, prefix=[]))
        for pre in itertools.product(itertools.product(dpsi, bndry, lim), repeat=split):
            cases.append(dict(opt=o, dpsi=dpsi, bndry=bndry, lim=lim, depth=depth, prefix=[list(p) for p in pre]))

    D, B = ["hi", "lo", "0", "nan", "-hi"], ["hi", "same", "lo", "-lo", "-hi", None, "nan"]
    # convergence rule: all answers, wide alphabet
    for t in tol:
        for bs in (1.0, -1.0):
            add(dict(t, bsign=bs), D, B, [False], 3 if q else 4)
            add(dict(t, bsign=bs, wait=True, info=False), ["hi", "lo"], ["hi", "same", None], [False, True], 3 if q else 5)
    # all options, small alphabet
    for t, check, wait, lim_it, lim0, blend, ctl, pb in itertools.product(
        tol[:1] if q else tol, (False, True), (False, True), (0, 1, 2, 3), (False, True), (0.0, 0.25), (False, True), (None, 0.04)
    ):
        add(dict(t, check=check, wait=wait, limit_it=lim_it, lim0=lim0, blend=blend, control=ctl, psi_bndry=pb, eqcheck=True, b0=0.02), ["hi", "lo"], ["same", None], [False, True], 3 if q else 4)
    # iteration limit, long runs
    for t, m, blend, ctl in itertools.product(tol, (1, 2, 3, 4, None), (0.0, 0.5, 0.9), (False, True)):
        add(dict(t, maxits=m, blend=blend, control=ctl), ["hi", "lo"], ["hi", "same"], [False], 6 if q else 8)
    # fixed zero boundary
    for t in tol:
        add(dict(t, psi_bndry=0.0, b0=0.0), ["hi", "lo", "nan"], ["zero"], [False], 6)
    real = [
        dict(conf=c, grid=g, sign=s, wall=w, rtol=rt, blend=bl, maxits=mi, check=ch, wait=wa, limit_it=li, control=ctl)
        for c in ("lower", "double")
        for g in (("17x33", "33x33") if not q else ("33x33",))
        for s in (1.0, -1.0)
        for w, ch, wa, li in ((None, False, False, 0), ((0.65, 1.3, -0.6, 0.6), True, False, 0), ((0.65, 1.3, -0.6, 0.6), True, True, 2))
        for rt in (1e-2, 1e-4)
        for bl in (0.0, 0.4)
        for mi in (3, 25)
        for ctl in (True, False)
    ]
    return CheckDef(
        "C13",
        [
            Section("environment", cases, run_tree, "all answer sequences (flux change x boundary x limited) up to 3-6 (quick) or 4-8 iterations, all option combinations"),
            Section("real solve", real, run_real, "configurations x signs x limiter options x tolerance x blend x iteration limit x control"),
        ],
        ["the boundary flux counts as zero before the first iteration; after an iteration without boundary the next boundary value counts as changed"],
    )
