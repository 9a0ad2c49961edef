"""Writes MANIFEST.json from the checks that exist (pbt/cNN.py)."""

import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
NUM = "Judged only where the answer is further from its threshold than the rounding error of a 32-bit evaluation; trusts NumPy and Hypothesis."
T = {
    "C01": ("property-based testing against a 64-bit mirror-image reference and metamorphic relations", NUM),
    "C02": ("property-based testing against an independent exact-mode validity oracle", NUM),
    "C03": ("property-based testing against an independent mirror-image ray tracer and a per-entry differential", NUM),
    "C04": ("property-based testing against a brute-force enumeration of index sequences, with call histories", "Up to 7 objects and order 4."),
    "C05": ("metamorphic property-based testing (isometries, scalings, permutations, reversal, additions)", NUM),
    "C06": ("property-based testing against a rational-arithmetic intersection test", "Exact boundary behaviour on lattice inputs where 32-bit arithmetic is exact; elsewhere judged outside the rounding error."),
    "C07": ("property-based testing against 64-bit geometry, round trips and invariants", NUM),
    "C08": ("property-based testing against 64-bit formulas and metamorphic relations", NUM),
    "C09": ("property-based testing against an explicit sum over independently traced paths", "Path construction and validity of one path are taken from the library (C01, C02, C22 decide those)."),
    "C10": ("differential property-based testing: grid maps against single-position scenes", "The single-position accumulation is the oracle (C09 decides it); compared within 32-bit rounding."),
    "C11": ("property-based testing against finite differences of an independent 64-bit reference and differential forms", "Derivatives compared where the reference is smooth on the difference's stencil."),
    "C12": ("fuzzing of degenerate placements with a finiteness oracle on values and derivatives", "Placements degenerate to less than a millionth of the scene are excluded (32-bit overflow)."),
    "C13": ("property-based testing against an interval-valued fuzzy-logic reference", NUM),
    "C14": ("property-based testing against NumPy logic, published formulas and algebraic laws", NUM),
    "C15": ("stateful model-based testing of context programs, thread schedules and start-up environments", "Threads are interleaved step by step by a token scheduler; a pre-emption inside one library call is not controlled."),
    "C16": ("stateful model-based testing of scene edits against ordered maps and lists", "Names are keyword-compatible strings other than `self`."),
    "C17": ("property-based testing against the documented geometry", "Distribution of random scenes is only checked through range, distinctness and spread."),
    "C18": ("grammar-based generation of GeoJSON documents against an independent reading", "Outer rings of 2-D polygons."),
    "C19": ("property-based testing against 64-bit bounding boxes and grids", NUM),
    "C20": ("property-based testing against a linear scan and an explicit product", NUM),
    "C21": ("property-based testing against NumPy optimiser trajectories", "Adam and SGD on polynomial and trigonometric objectives."),
    "C22": ("property-based testing: incidence, loss and convergence against an independent 64-bit minimiser", NUM),
    "C23": ("differential property-based testing: direct, compiled, batched, flattened and stacked evaluation", "Compared within 32-bit rounding."),
    "C24": ("property-based testing against 64-bit formulas and metamorphic relations", NUM),
    "C25": ("property-based testing against a 64-bit rotation", "A recorded finding (C25-rows) covers angles that are not multiples of a half-turn; only its exact wrong result is tolerated."),
    "C26": ("property-based testing against the artists expected on a Matplotlib axes", "Artists are inspected, not rendered pixels."),
    "C27": ("negative fuzzing of constructors and queries with malformed arrays, names and documents", "Any exception counts as a rejection."),
}
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    if (V / "pbt" / f"{p.lower()}.py").exists():
        tech, note = T[p]
        checks.append(
            {
                "property": p,
                "quick_cmd": f"./check.sh {p}",
                "thorough_cmd": f"./check.sh {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": tech,
                "level": "exploration",
                "level_note": "Held on every generated case (counts and samples in the evidence file). " + note,
            }
        )
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.sh C25 --scale 0.02 --no-evidence",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo. Replay a failure with ./check.sh <ID> --replay FILE. Findings: known_findings.json.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not yet")
