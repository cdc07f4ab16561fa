"""Regenerates /verif/MANIFEST.json from properties.jsonl and the check modules."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]

TECH = {
    "C01": "property-based testing of whole optimizations: generated bounds, criteria and options; every criterion call checked; metamorphic runs with bounds that cannot bind",
    "C02": "property-based testing of whole optimizations against the log of criterion calls",
    "C03": "property-based testing of whole optimizations with generated tolerances and limits; stopping reasons recomputed from states, call log and clock",
    "C04": "metamorphic property-based testing: repeated, interleaved and nested runs compared exactly, caller objects and global random state compared before and after",
    "C05": "schedule fuzzing: permuted execution orders, threads and processes in the batch evaluator compared with a serial run",
    "C06": "fault-injection fuzzing of whole optimizations (exceptions, NaN, inf) with invariants over log, history and states",
    "C07": "model-based testing of the wrapped criterion and history plus call-log comparison of whole optimizations",
    "C08": "property-based testing with spying components and generated signatures against a table of documented defaults",
    "C09": "stateful model-based testing of the history against a list of records",
    "C10": "property-based testing of regions against the documented formulas (round trips, containment, volumes)",
    "C11": "property-based testing of fitters against optimality conditions (normal equations, KKT) and metamorphic relations",
    "C12": "metamorphic property-based testing of model moves, sums and aggregation at generated points",
    "C13": "property-based testing of subproblem solvers against feasibility, honesty, Cauchy decrease and independent global solutions",
    "C14": "differential fuzzing of compiled against reference subsolvers",
    "C15": "property-based testing of samplers: containment, counts, hull membership, determinism, determinant criterion",
    "C16": "property-based testing of filters, dropping and clustering against their documented rules",
    "C17": "property-based testing of acceptance deciders with scripted criteria against a reference decision",
    "C18": "property-based testing of radius, evaluation-count and variance rules against reference formulas",
    "C19": "property-based testing of infinity handling: order, invariance and shift relations",
    "C20": "property-based testing of whole optimizations: invariants over the recorded states and the history",
    "C21": "property-based testing of whole optimizations on problems with known solutions, plus metamorphic runs",
    "C22": "property-based testing of poisedness constants against independently computed Lagrange polynomials",
    "C23": "property-based testing of diagnostic figures against the recorded states",
    "C24": "property-based testing of exploration samples against strata, distribution functions and affine relations",
}
NOTE = (
    "Exploration by generated inputs (Hypothesis strategies, fixed number of cases, seeded "
    "by VERIF_SEED) against an explicit oracle; failures are shrunk to a replay file. "
    "Trusts numpy/scipy for the oracle computations; compiled code runs with "
    "numba optimisation level 0."
)

claimed = []
for p in props:
    path = ROOT / "pbt" / "checks" / f"{p['id'].lower()}.py"
    if path.exists():
        claimed.append(p["id"])

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": c,
            "quick_cmd": f"bash check.sh {c}",
            "thorough_cmd": f"bash check.sh {c} --tier thorough",
            "evidence_file": f"evidence/{c}.json",
            "technique": TECH[c],
            "level": "exploration",
            "level_note": NOTE,
        }
        for c in claimed
    ],
    "not_applicable": [
        {"property": p["id"], "reason": "check not built yet"}
        for p in props
        if p["id"] not in claimed
    ],
    "notes": "No hooks in /repo are needed. known_findings.json lists repaired defects.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(claimed), "checks")
