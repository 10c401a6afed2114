"""Explicit enumeration of executions of the real freegs code.

A check is a list of sections.  A section owns a finite, completely enumerated
list of cases (operation histories, environment answers, random outcomes, input
shapes) and a function that runs one case on the code in /repo and compares
every step with a reference model.  The runner executes all cases of all
sections in worker processes, merges the counts that the workers measured,
writes the evidence file, and reports the first violation in enumeration order
(cases are ordered simplest first) with a file that replays it.
"""

import argparse
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "240"))


class Violation(AssertionError):
    """The code broke the property; `key` identifies the specific failure."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    """The case is outside of what the property covers; counted, not checked."""


class CaseTimeout(Exception):
    pass


def h64(obj):
    s = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True, default=str)
    return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()


class Ctx:
    """What one case measured."""

    def __init__(self, section):
        self.section = section
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.outcomes = set()
        self.notes = {}

    # -- recording
    def state(self, *obj):
        self.states.add(h64([self.section, list(obj)]))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(self.section + ":" + ",".join(str(k) for k in key))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # -- judging
    def expect(self, cond, msg, key=None):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, key=None):
        import numpy as np

        self.comparisons += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w)
            except ValueError:
                raise Violation(
                    "%s: shape %s, expected %s" % (msg, g.shape, w.shape), key
                )
        bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w))
        bad &= ~(np.isnan(g) & np.isnan(w))
        if np.any(bad):
            i = tuple(int(k) for k in np.argwhere(np.atleast_1d(bad))[0])
            raise Violation(
                "%s: got %r, expected %r%s (rtol %g, atol %g)"
                % (
                    msg,
                    float(np.atleast_1d(g)[i]),
                    float(np.atleast_1d(w)[i]),
                    "" if g.ndim == 0 else " at %s" % (i,),
                    rtol,
                    atol,
                ),
                key,
            )

    def same(self, got, want, msg, key=None):
        self.comparisons += 1
        if got != want:
            raise Violation("%s: got %r, expected %r" % (msg, got, want), key)

    def raises(self, exc, func, msg, key=None):
        self.comparisons += 1
        try:
            func()
        except exc:
            return
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation("%s: raised %r" % (msg, e), key)
        raise Violation("%s: no error raised" % msg, key)


class Section:
    def __init__(self, name, cases, run, bound, timeout=None):
        self.name, self.cases, self.run, self.bound = name, cases, run, bound
        self.timeout = timeout or CASE_TIMEOUT


class CheckDef:
    def __init__(self, pid, sections, assumptions=()):
        self.pid, self.sections, self.assumptions = pid, sections, list(assumptions)


@contextlib.contextmanager
def quiet():
    import warnings

    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def _alarm(signum, frame):
    raise CaseTimeout()


def execute(section, case):
    """Run one case; returns (ctx, None) or (ctx, violation dict)."""
    ctx = Ctx(section.name)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(section.timeout)
    viol = None
    try:
        with quiet():
            import numpy as np

            with np.errstate(all="ignore"):
                section.run(case, ctx)
    except Inconclusive as e:
        ctx.note("inconclusive: " + str(e))
    except Violation as e:
        viol = {"message": str(e), "key": e.key, "kind": "property"}
    except CaseTimeout:
        viol = {
            "message": "no result within %d s (the operation does not terminate)"
            % section.timeout,
            "key": None,
            "kind": "timeout",
        }
    except MemoryError:
        raise
    except Exception as e:
        viol = {
            "message": "unexpected error %s: %s" % (type(e).__name__, e),
            "key": None,
            "kind": "exception",
            "traceback": traceback.format_exc(),
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx, viol


_SECTIONS = None


def _work(item):
    si, ci, case = item
    try:
        ctx, viol = execute(_SECTIONS[si], case)
    except BaseException as e:  # an error of the check itself
        return si, ci, None, {"kind": "internal", "message": repr(e)}
    return (
        si,
        ci,
        (
            ctx.states,
            ctx.transitions,
            ctx.traces,
            ctx.comparisons,
            ctx.outcomes,
            ctx.notes,
        ),
        viol,
    )


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, "w")


def known_findings(pid):
    """Exact keys of recorded (unrepaired) findings of this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:") :].split(None, 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                if d.get("property") == pid:
                    out[d["key"]] = parts[2] if len(parts) > 2 else ""
    return out


def load_check(pid):
    import importlib

    sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + pid.lower())


def prepare():
    os.environ.setdefault("MPLBACKEND", "Agg")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    # never trust byte code written for another version of the tree
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)


def write_replay(pid, section, case, viol, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s.json" % (pid, section.replace(" ", "_"), h64([section, case])[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(
            {
                "property": pid,
                "section": section,
                "case": case,
                "tier": tier,
                "violation": viol,
                "replay_cmd": "bash /verif/run.sh %s --replay %s" % (pid, path),
            },
            f,
            indent=1,
            default=str,
        )
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--section")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at a violation")
    args = ap.parse_args(argv)
    pid = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prepare()
    t0 = time.time()

    try:
        with quiet():
            import freegs  # noqa: F401
    except BaseException as e:
        viol = {
            "kind": "exception",
            "message": "freegs cannot be imported: %r" % e,
            "traceback": traceback.format_exc(),
        }
        path = write_replay(pid, "import", None, viol, tier)
        print(viol["message"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    assert os.path.realpath(freegs.__file__).startswith(os.path.realpath(REPO))

    mod = load_check(pid)
    check = mod.check(tier)
    sections = [s for s in check.sections if not args.section or s.name == args.section]

    if args.replay:
        rec = json.load(open(args.replay))
        if rec["section"] == "import":
            print("freegs imports now")
            return 0
        if rec.get("tier") != tier:
            sections = mod.check(rec["tier"]).sections
        sec = [s for s in sections if s.name == rec["section"]][0]
        _, v1 = execute(sec, rec["case"])
        _, v2 = execute(sec, rec["case"])
        print("first run :", v1 and v1["message"])
        print("second run:", v2 and v2["message"])
        if v1 and "traceback" in v1:
            print(v1["traceback"])
        if v1:
            print("VIOLATION property=%s replay=%s" % (pid, args.replay))
            return 1
        return 0

    global _SECTIONS
    _SECTIONS = sections
    known = known_findings(pid)
    items, counts = [], {}
    for si, s in enumerate(sections):
        cases = list(s.cases)
        counts[s.name] = len(cases)
        items += [(si, ci, c) for ci, c in enumerate(cases)]

    # spread over cores; results come back in order so that the first
    # violation reported is the simplest in enumeration order
    nproc = args.jobs or min(8, os.cpu_count() or 1)
    states, outcomes, notes = set(), set(), {}
    transitions = traces = comparisons = done = 0
    per = {
        s.name: {"cases": counts[s.name], "bound": s.bound, "transitions": 0}
        for s in sections
    }
    violations, suppressed, internal = [], {}, None
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(nproc, initializer=_init_worker) if nproc > 1 else None
    chunk = max(1, min(32, len(items) // (nproc * 16)))
    it = pool.imap(_work, items, chunksize=chunk) if pool else map(_work, items)
    try:
        for si, ci, res, viol in it:
            name = sections[si].name
            if viol and viol["kind"] == "internal":
                internal = "%s case %d: %s" % (name, ci, viol["message"])
                break
            st, tr, tc, cmpn, oc, nt = res
            states |= st
            transitions += tr
            traces += tc
            comparisons += cmpn
            outcomes |= oc
            per[name]["transitions"] += tr
            for k, v in nt.items():
                notes[name + ": " + k] = notes.get(name + ": " + k, 0) + v
            done += 1
            if viol:
                key = viol.get("key")
                if key is not None and key in known:
                    suppressed[key] = suppressed.get(key, 0) + 1
                    continue
                case = [c for (s2, c2, c) in items if s2 == si and c2 == ci][0]
                violations.append((name, case, viol))
                if not args.all:
                    break
    finally:
        if pool:
            pool.terminate()
            pool.join()

    wall = time.time() - t0
    if internal:
        print("internal error of the check: " + internal)
        return 3

    for k in sorted(suppressed):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))

    samples = []
    for si, s in enumerate(sections):
        cs = [c for (s2, _, c) in items if s2 == si]
        if cs:
            samples.append({"section": s.name, "first": cs[0], "last": cs[-1]})
    complete = done == len(items) and not violations
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "comparisons_with_reference": comparisons,
            "distinct_outcomes": len(outcomes),
            "outcome_examples": sorted(outcomes)[:12],
            "cases_enumerated": len(items),
            "cases_completed": done,
            "sections": per,
            "notes": notes,
            "samples": samples,
            "exhaustive": bool(complete and not args.section),
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not args.no_evidence and not args.section:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(
        "%s %s: %d/%d cases, %d states, %d transitions, %d traces, %d comparisons, "
        "%d outcomes, %.1f s"
        % (
            pid,
            tier,
            done,
            len(items),
            len(states),
            transitions,
            traces,
            comparisons,
            len(outcomes),
            wall,
        )
    )
    for s in sections:
        print("  %-28s %6d cases  %s" % (s.name, counts[s.name], s.bound))
    for k in sorted(notes):
        print("  note: %s = %d" % (k, notes[k]))
    if violations:
        for name, case, viol in violations:
            path = write_replay(pid, name, case, viol, tier)
            print("violated in %s, case %s" % (name, json.dumps(case, default=str)[:600]))
            print("  " + viol["message"])
            if "traceback" in viol:
                print(viol["traceback"])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def sequences(nops, depth):
    """All operation sequences of length 1..depth, shortest first."""
    import itertools

    for d in range(1, depth + 1):
        yield from itertools.product(range(nops), repeat=d)


def tree(ops, depth, prefix, make, apply, check):
    """Explore the operation tree below `prefix` by re-execution.

    Every node (operation sequence of length <= depth extending the prefix)
    is built on a fresh object and checked exactly once, the first time that it
    is reached; deeper sequences re-execute their prefix without checking, so
    that the effect of the checks' own evaluations is itself explored.
    """
    import itertools

    n = depth - len(prefix)
    if n < 0:
        raise ValueError("prefix longer than depth")
    for tail in itertools.product(range(len(ops)), repeat=n):
        seq = list(prefix) + [ops[i] for i in tail]
        obj = make()
        if len(prefix) == 0 and not any(tail):
            check(obj, [])
        for k, op in enumerate(seq):
            apply(obj, op)
            if k + 1 >= len(prefix) and not any(tail[k + 1 - len(prefix) :]):
                check(obj, seq[: k + 1])
