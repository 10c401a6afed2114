"""Source of MANIFEST.json (run: python3 mkmanifest.py)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    "C01": "exhaustive exploration of operation histories of real coil objects against a filament model",
    "C02": "exhaustive exploration of circuit operation histories against an explicit-state model",
    "C03": "exhaustive exploration of machines, control subsets and histories against an explicit-state model",
    "C04": "exhaustive enumeration of small machines and histories against a Lorentz force model",
    "C05": "exhaustive exploration of solve/current histories against an explicit-state model",
    "C06": "exhaustive enumeration of basis sources and boundary values on small grids",
    "C07": "exhaustive enumeration of basis currents and boundary points on small grids",
    "C08": "exhaustive enumeration of multigrid configurations and basis errors on small grids",
    "C09": "exhaustive enumeration of a lattice of fields with known critical points",
    "C10": "exhaustive enumeration of in/out patterns on small grids against a graph reachability model",
    "C11": "exhaustive enumeration of profile parameter and flux field lattices",
    "C12": "exhaustive enumeration of constraint sets, control subsets and starting states",
    "C13": "exhaustive exploration of environment answers to the nonlinear solve against a state machine model",
    "C14": "exhaustive exploration of all random outcomes of the real optimiser under a controlled random source",
    "C15": "exhaustive enumeration of limits, requests and machines",
    "C16": "exhaustive enumeration of machines and histories, written and re-read",
    "C17": "exhaustive enumeration of equilibrium configurations, written, parsed and re-read",
    "C18": "exhaustive exploration of sensor/coil operation histories against an explicit-state model",
    "C19": "exhaustive enumeration of all small lattice polygons and polylines against exact arithmetic",
    "C20": "exhaustive enumeration of lattice walls/points and starting points",
    "C21": "exhaustive enumeration of equilibrium family x quantity against recomputed definitions and symmetries",
    "C22": "exhaustive exploration of regridding histories against a model",
    "C23": "exhaustive enumeration of field and wall lattices against an independent decision",
    "C24": "exhaustive enumeration of lattice point pairs against independent quadrature",
    "C25": "exhaustive enumeration of flux levels, directions and equilibria against independent tracing",
    "C26": "exhaustive enumeration of a lattice of solve problems in all of their symmetry transforms",
    "C27": "exhaustive enumeration of request subsets and orders over a family of equilibria against area integrals",
    "C28": "exhaustive exploration of creation and operation histories of all predefined machines, and of their mirror pairs",
    "C29": "exhaustive exploration of interleavings of sessions, and of operation histories of originals and copies",
    "C30": "exhaustive enumeration of configurations and options, drawings and tables read back",
    "C31": "exhaustive enumeration of pairs of variants and of operation histories on one of two equal objects",
    "C32": "fault injection at every call of user-supplied functions in every operation, and sequences of faults",
    "C33": "exhaustive enumeration of evaluations x forms of their arguments against evaluation at single points",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "bash run.sh %s --tier quick" % p,
            "thorough_cmd": "bash run.sh %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": T[p],
            "level": "model_checking",
            "level_note": "exhaustive within the bounds recorded in the evidence file; executes the code in /repo directly",
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
