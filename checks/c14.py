"""C14: the optimiser for every random outcome.

Every draw of the random source is a choice point; all outcomes are explored
on the real optimiser (stateless depth-first exploration; for the larger
configurations up to a bound on the number of draws differing from the first
outcome).  Objects, controls and scores are recording stand-ins; the
solve-and-measure wrapper is run on real Equilibrium objects whose linear
solve succeeds, fails or does not converge in every pattern.
"""

import itertools
import math
import numpy as np
from mc.core import CheckDef, Section, Violation
from mc import rnd

rnd.install()


class Thing:
    """What is optimised: nested mutable state"""

    def __init__(self, vals):
        self.state = {"v": [float(x) for x in vals]}

    @property
    def v(self):
        return self.state["v"]


class Ctl:
    def __init__(self, i, clip=None):
        self.i, self.clip = i, clip

    def get(self, o):
        return o.v[self.i]

    def set(self, o, x):
        if self.clip is not None:
            x = min(max(x, self.clip[0]), self.clip[1])
        o.v[self.i] = x


SCORES = {
    "bowl": lambda v: sum((x - 0.9 * (k + 1)) ** 2 for k, x in enumerate(v)),
    "down": lambda v: sum(v),
    "up": lambda v: -sum(v),
    "flat": lambda v: 1.0,
    "steps": lambda v: float(round(4 * sum(v)) % 3),
    "holes": lambda v: math.inf if round(40 * sum(v)) % 2 else sum(v),
    "bad": lambda v: math.inf,
}


def simulate(case, optimise):
    """One run; returns the record"""
    start = [1.0 + 0.3 * k for k in range(case["nc"])]
    if case.get("zero"):
        start[0] = 0.0
    obj = Thing(start)
    score = SCORES[case["score"]]
    rec = dict(evals=[], gens=[], start=start, obj=obj)

    def measure(o):
        s = score(list(o.v))
        rec["evals"].append((s, list(o.v), o))
        return s

    def monitor(gen, best, pop):
        rec["gens"].append((gen, (best[0], best[1], list(best[1].v)), [(p[0], p[1], list(p[1].v)) for p in pop], len(rec["evals"])))

    controls = [Ctl(k) for k in range(case["nc"])]
    kw = dict(maxgen=case["gen"], N=case["N"], CR=case["CR"], F=case["F"])
    if case.get("monitor", True):
        kw["monitor"] = monitor
    rec["result"] = optimise(obj, controls, measure, **kw)
    rec["snap"] = [list(o.v) for _, _, o in rec["evals"]]
    return rec


def judge(case, rec, ck, seen):
    N, G, nc, F = case["N"], case["gen"], case["nc"], case["F"]
    score = SCORES[case["score"]]
    ev = rec["evals"]
    ck.same(len(ev), N + N * G, "evaluations")
    ck.same(rec["obj"].v, rec["start"], "supplied object after the run")
    # candidates are independent and never modified after being measured
    ck.expect(ev[0][2] is rec["obj"] or ev[0][1] == rec["start"], "the supplied object is the first candidate")
    ids = set()
    for k, (s, v, o) in enumerate(ev):
        ck.expect(id(o.state["v"]) not in ids, "candidate %d shares state with another" % k)
        ids.add(id(o.state["v"]))
        ck.expect(rec["snap"][k] == v, "candidate %d was modified after being evaluated" % k)
    for k in range(1, N):
        for x, x0 in zip(ev[k][1], rec["start"]):
            if x0:
                ck.expect(abs(x - x0) <= 0.1 * abs(x0) and x != x0, "initial variation of %g to %g" % (x0, x))
            else:
                ck.expect(x != 0.0, "initial variation of zero")
    pop = [(e[0], e[1]) for e in ev[:N]]
    best = min(p[0] for p in pop)
    for g in range(G):
        trials = ev[N + g * N : N + (g + 1) * N]
        new = []
        for a, (s, v, o) in enumerate(trials):
            own = pop[a][1]
            others = [k for k in range(N) if k != a]
            ok = False
            for t in itertools.permutations(others, 3):
                mix = [pop[t[0]][1][c] + F * (pop[t[1]][1][c] - pop[t[2]][1][c]) for c in range(nc)]
                m = [abs(x - y) <= 1e-12 * (1 + abs(y)) for x, y in zip(v, mix)]
                k = [x == y for x, y in zip(v, own)]
                if any(m) and all(p or q for p, q in zip(m, k)):
                    ok = True
                    seen.setdefault("triples", set()).add((a,) + t)
                    seen.setdefault("controls", set()).add(tuple(m))
            ck.expect(ok, "generation %d, candidate %d: trial %s is not a combination of three distinct others (own %s, population %s)" % (g, a, v, own, [p[1] for p in pop]))
            if s < pop[a][0]:
                new.append((s, v))
            else:
                new.append(pop[a])
            best = min(best, s)
        if rec["gens"] or case.get("monitor", True):
            ck.expect(len(rec["gens"]) > g, "monitor called for generation %d" % g)
            gen, b, mp, nev = rec["gens"][g]
            ck.same(gen, g, "generation number")
            ck.same(nev, N + (g + 1) * N, "monitor is called at the end of the generation")
            ck.same(len(mp), N, "population size")
            ck.same(b[0], best, "best score in generation %d" % g)
            ck.same(score(b[2]), b[0], "score of the best candidate in generation %d" % g)
            for a in range(N):
                ck.same(score(mp[a][2]), mp[a][0], "score of member %d in generation %d" % (a, g))
                ck.expect(mp[a][0] <= pop[a][0], "member %d got worse in generation %d" % (a, g))
                ck.same((mp[a][0], mp[a][2]), new[a], "member %d in generation %d" % (a, g))
        pop = new
    ck.same(len(rec["gens"]), G if case.get("monitor", True) else 0, "monitor calls")
    got = score(list(rec["result"].v))
    ck.same(got, min(e[0] for e in ev), "score of the returned candidate")
    ck.expect(any(rec["result"].v == e[1] for e in ev), "the returned candidate was evaluated")
    ck.outcome(case["score"], case["nc"], best == ev[0][0])


def run_all(case, ck):
    from freegs.optimiser import optimise

    seen = {}

    def visit(rec, s):
        judge(case, rec, ck, seen)
        ck.step(len(s.log))
        ck.trace()
        ck.state(case, [x[0] for x in s.log])

    unit = case["unit"]
    rnd.explore(lambda: simulate(case, optimise), visit, bound=case["bound"], start=case["start"], unit=unit)
    if case.get("complete"):
        N = case["N"]
        want = {(a,) + t for a in range(N) for t in itertools.permutations([k for k in range(N) if k != a], 3)}
        ck.expect(want <= seen["triples"], "choices of other candidates never made: %s" % sorted(want - seen["triples"])[:5])
        for c in range(case["nc"]):
            ck.expect(any(m[c] for m in seen["controls"]), "control %d is never changed" % c)
        ck.outcome("all choices reachable", N)


def run_cr(case, ck):
    """Crossover probability zero: one control, each possible; one: all"""
    from freegs.optimiser import optimise

    base = dict(case)
    counts = {}

    def visit(rec, s):
        seen = {}
        judge(base, rec, ck, seen)
        v, own = rec["evals"][base["N"]][1], rec["evals"][0][1]
        k = tuple(x != y for x, y in zip(v, own))
        counts[k] = counts.get(k, 0.0) + 1
        ck.step(len(s.log))
        ck.trace()

    # the draws before and after those of the first trial take the first outcome
    def f():
        return simulate(base, optimise)

    _, s0 = rnd.run(f, [], unit=case["unit"])
    # find the draw which selects the control: all single deviations
    visit(*rnd.run(f, [], unit=case["unit"]))
    for k, (c, m) in enumerate(s0.log):
        for alt in range(1, m):
            visit(*rnd.run(f, [x[0] for x in s0.log[:k]] + [alt], unit=case["unit"]))
    if case["CR"] == 0.0:
        ck.expect(all(sum(k) == 1 for k in counts), "exactly one control changes: %s" % counts)
        ck.same(len(counts), case["nc"], "controls which can be chosen")
    else:
        ck.expect(all(all(k) for k in counts), "all controls change: %s" % counts)
    ck.state(case)
    ck.outcome("CR", case["CR"])


def run_pick(case, ck):
    from freegs import optimiser

    if not hasattr(optimiser, "pickUnique"):
        ck.note("no pickUnique")
        return
    N, m, e = case
    p = {}
    e0 = list(e)

    def visit(res, s):
        t = tuple(int(x) for x in res)
        ck.expect(len(t) == m and len(set(t)) == m and all(0 <= x < N and x not in e0 for x in t), "picked %s out of %d excluding %s" % (t, N, e0))
        p[t] = p.get(t, 0.0) + s.prob
        ck.step(len(s.log))
        ck.trace()

    rnd.explore(lambda: optimiser.pickUnique(N, m, e), visit)
    ck.same(e, e0, "list of excluded values")
    want = set(itertools.permutations([k for k in range(N) if k not in e0], m))
    ck.same(set(p), want, "possible picks")
    q = list(p.values())
    ck.close(q, [1.0 / len(want)] * len(q), "probabilities", rtol=1e-9)
    ck.state(case)
    ck.outcome("pick", m, len(e))


# ----------------------------------------------------- solve and measure
_E = None


def equilibrium():
    global _E
    import freegs
    from freegs.machine import Machine
    from freegs.coil import Coil

    if _E is None:

        class Scripted(freegs.Equilibrium):
            def solve(self, profiles, Jtor=None, psi=None, psi_bndry=None):
                profiles.seen(self)
                fate = profiles.fate(self)
                if fate == "error":
                    raise ValueError("no O-points")
                self.psi_bndry = np.float64(0.05)
                self.is_limited = False
                if fate == "diverge":
                    self._updatePlasmaPsi(self.plasma_psi * 1.5)
                # otherwise unchanged: converges

        _E = Scripted
    a, b = Coil(1.0, 1.2), Coil(1.6, -0.9)
    a.current, b.current = 1e5, -5e4
    tok = Machine([("A", a), ("B", b)])
    return _E(tok, 0.4, 1.6, -0.8, 0.8, 5, 5, order=2)


class Fates:
    """Shared by all candidates (copies are shallow): answers of the solver"""

    def __init__(self, fates):
        self.fates, self.order, self.keep, self.stale = fates, {}, [], 0.0

    def __deepcopy__(self, memo):
        return self

    def seen(self, eq):
        # solved with the coils where they are
        want = eq.plasma_psi + eq.tokamak.psi(eq.R, eq.Z)
        self.stale = max(self.stale, float(np.abs(eq.psi() - want).max() / np.abs(want).max()))

    def fate(self, eq):
        k = self.order.setdefault(id(eq), len(self.order))
        if len(self.keep) <= k:
            self.keep.append(eq)  # ids stay unique
        return self.fates[k] if k < len(self.fates) else "ok"


def run_solve(case, ck):
    from freegs import optimise as om

    eq = equilibrium()
    f = Fates(case["fates"])
    eq._profiles = f
    eq._constraints = None
    eq.psi_bndry = None
    evals = []
    start = (float(eq.tokamak["A"].R), float(eq.tokamak["B"].Z))
    plasma = np.array(eq.plasma_psi)

    def measure(e):
        k = f.order[id(e)]
        R, Z = float(e.tokamak["A"].R), float(e.tokamak["B"].Z)
        # the flux measured is that of the present coil positions
        want = e.plasma_psi + e.tokamak.psi(e.R, e.Z)
        ck.close(e.psi(), want, "flux of candidate %d when measured" % k, rtol=1e-9, atol=1e-15)
        if case["fates"][k] == "measure":
            raise RuntimeError("measurement failed")
        s = case["scores"][k] if case["scores"] else (R - 1.3) ** 2 + (Z + 1.0) ** 2
        evals.append((s, R, Z, k))
        return s

    class Own:
        """A control of the user, on the position of a coil"""

        def __init__(self, label, what):
            self.label, self.what = label, what

        def get(self, e):
            return getattr(e.tokamak[self.label], self.what)

        def set(self, e, v):
            setattr(e.tokamak[self.label], self.what, v)

    controls = [om.CoilRadius("A", minimum=0.5, maximum=2.0), om.CoilHeight("B")]
    if case.get("own"):
        controls = [Own("A", "R"), Own("B", "Z")]
    gens = []
    kw = dict(maxgen=case["gen"], N=4, CR=0.5, F=0.8, monitor=lambda g, b, p: gens.append((g, b, list(p))))
    res, s = rnd.run(
        lambda: om.optimise(eq, controls, measure, **kw),
        case["script"],
    )
    n = 4 + 4 * case["gen"]
    ck.expect(f.stale < 1e-9, "candidates are solved with the flux of their coils (error %g)" % f.stale)
    ck.same(len(f.order), n, "candidates solved")
    good = [k for k in range(n) if case["fates"][k] == "ok"]
    ck.same(sorted(e[3] for e in evals), good, "candidates measured")
    got = (float(res.tokamak["A"].R), float(res.tokamak["B"].Z))
    if good:
        b = min(evals)
        ck.expect(any(e[0] == b[0] and got == (e[1], e[2]) for e in evals), "returned %s, best evaluated %s" % (got, b))
    else:
        ck.same(got, start, "nothing succeeded: the supplied equilibrium")
    ck.same((float(eq.tokamak["A"].R), float(eq.tokamak["B"].Z)), start, "coils of the supplied equilibrium")
    ck.same([float(c.current) for _, c in eq.tokamak.coils], [1e5, -5e4], "currents of the supplied equilibrium")
    if case["fates"][0] in ("ok", "error", "measure"):
        ck.expect(np.array_equal(eq.plasma_psi, plasma), "plasma of the supplied equilibrium is unchanged")
    if gens:
        sc = [g[1][0] for g in gens]
        ck.same(sc[-1], min([e[0] for e in evals] + [math.inf]), "best score reported")
        ck.expect(all(x >= y for x, y in zip(sc, sc[1:])), "best score never increases")
        for _, b, p in gens:
            ck.same(len(p), 4, "population size")
            ck.expect(len({id(x[1].tokamak) for x in p}) == len({id(x[1]) for x in p}), "machines are not shared")
    ck.step(n)
    ck.trace()
    ck.state(case)
    ck.outcome("solve", len(good))


def check(tier):
    q = tier == "quick"
    full = []
    one = [0.2]
    # all outcomes of choosing candidates, one control
    for sc in SCORES:
        for F in (1.0, 0.5) if q else (1.0, 0.5, 2.0, 0.0):
            full.append(dict(N=4, gen=1, nc=1, CR=0.3, F=F, score=sc, unit=[0.2, 0.37, 0.8][:1] if False else [0.8], bound=None, start=[], complete=False))
    # unequal initial variations: the unit draws cycle through different outcomes
    base = dict(N=4, gen=1, nc=1, CR=0.3, F=1.0, unit=[0.2, 0.37, 0.8], bound=None, complete=True)
    for pre in itertools.product(range(3), repeat=3):
        if len(set(pre)) == 3:
            for sc in ("bowl", "steps") if q else SCORES:
                full.append(dict(base, score=sc, start=list(pre)))
    U = [0.2, 0.37, 0.8, 0.55]
    B = 2 if q else 3
    for nc in (1, 2, 3):
        for N in (4, 5):
            for gen in (0, 1, 2, 3):
                for sc in SCORES:
                    for CR in (0.3, 0.5):
                        pre = [(k % 4) for k in range((N - 1) * nc)]
                        full.append(dict(N=N, gen=gen, nc=nc, CR=CR, F=0.7, score=sc, unit=U, bound=sum(1 for k in pre if k) + (1 if q and (gen > 2 or nc > 2) else B - (gen > 1)), start=pre, monitor=not (nc == 1 and N == 5)))
    full.append(dict(N=4, gen=2, nc=2, CR=0.5, F=1.0, score="bowl", unit=U, bound=3, start=[], zero=True))
    # crossover extremes
    cr = [dict(N=N, gen=1, nc=nc, CR=c, F=0.7, score="down", unit=[0.2, 0.37, 0.8, 0.55]) for N in (4, 6) for nc in (1, 2, 3, 4) for c in (0.0, 1.0)]
    for c in cr:
        # different initial variations without a script: spread the unit values
        c["unit"] = [0.2, 0.37, 0.8, 0.55]
    pick = [[N, m, list(e)] for N in range(1, 7 if q else 8) for m in range(0, 5) for ne in range(0, 4) for e in itertools.permutations(range(N), ne) if m <= N - ne]
    # failures: all patterns
    solve = []
    for gen in (0, 1) if q else (0, 1, 2):
        n = 4 + 4 * gen
        pats = itertools.product(("ok", "error"), repeat=n) if n <= 8 else (p for p in itertools.product(("ok", "error"), repeat=n) if p.count("error") in (0, 1, 2, n - 1, n))
        for p in pats:
            solve.append(dict(gen=gen, fates=list(p), scores=None, script=[0, 1, 1, 0, 1]))
        for kind in ("diverge", "measure"):
            for k in range(n):
                solve.append(dict(gen=gen, fates=[kind if i == k else "ok" for i in range(n)], scores=None, script=[1, 0, 1]))
                solve.append(dict(gen=gen, fates=[kind if i == k else "ok" for i in range(n)], scores=None, script=[0, 1, 1], own=True))
                solve.append(dict(gen=gen, fates=["ok" if i == k else kind for i in range(n)], scores=None, script=[1, 0, 1]))
    for perm in itertools.permutations(range(4)):
        for r in itertools.product((-1.0, 1.5, 5.0), repeat=4) if not q else itertools.product((-1.0, 1.5), repeat=4):
            solve.append(dict(gen=1, fates=["ok"] * 8, scores=[float(x) for x in perm] + list(r), script=[1, 0, 0, 1]))
    return CheckDef(
        "C14",
        [
            Section("picking candidates", pick, run_pick, "all outcomes for N up to %d, up to 4 picks, up to 3 excluded" % (6 if q else 7)),
            Section("optimiser", full, run_all, "all outcomes for N=4, 1 generation, 1 control; up to %d deviating draws for N 4-5, 0-3 generations, 1-3 controls" % B),
            Section("crossover", cr, run_cr, "probability zero and one, every control selectable"),
            Section("solve and measure", solve, run_solve, "all failure patterns of up to 8 candidates"),
        ],
        ["draws of real numbers are represented by two to four values on both sides of the crossover probability"],
    )
