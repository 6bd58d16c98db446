"""Writes /verif/MANIFEST.json from the table below (run by hand; output is committed)."""
import json, pathlib
CLAIMED = {}
exec((pathlib.Path(__file__).parent / "claims.py").read_text())
NA = {
 "P01": "Pure function of its arguments: closed-form trigonometric expressions; no schedule, fault, clock, I/O or sharing can influence their value (history and thread independence of the very same calls is decided under C07/C08). Simulation would be input generation in disguise.",
 "P02": "Mathematical identity of one formulated expression over phase space; no nondeterminism or fault is involved in its truth.",
 "P03": "Pure arithmetic on spins and parities; decided by its inputs alone.",
 "P04": "Algebraic equivalence of two expressions; nothing to schedule or to fail.",
 "P05": "Values of closed-form lineshapes; pure functions of their arguments.",
 "P06": "Numerical agreement of a fixed translation with published numbers; a function of the model file only (faults and interleavings of the import are decided under C07, C09, C14).",
 "P07": "Validation of constructor arguments; a pure predicate on the input.",
 "P08": "Text produced from one object is a pure function of it (its reproducibility and history independence are decided under C08 and C11).",
 "P09": "Which transitions are selected is a pure function of the set (independence of delivery order, duplication and failing streams is decided under C12).",
 "P10": "A completeness statement on one result of a pure function.",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
na = []
for p in props:
    pid = p["id"]
    if pid in CLAIMED:
        c = CLAIMED[pid]
        checks.append({"property": pid, "quick_cmd": f"./run_check.sh {pid}",
          "thorough_cmd": f"VERIF_TIER=thorough ./run_check.sh {pid}",
          "evidence_file": f"evidence/{pid}.json",
          "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "Check under construction; not claimed yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks were added to /repo: every seam is taken from outside (file-system and import seams, sys.monitoring).", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Deterministic simulation with fault injection; see DESIGN.md. Known findings: known_findings.json."}
pathlib.Path("/verif/MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
