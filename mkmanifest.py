#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of existing checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C01": "runtime monitoring: independent geometric oracle on solved layouts under generated workloads",
    "C02": "runtime monitoring: observed residuals vs. independent relation oracle on satisfying and singly broken configurations",
    "C03": "runtime monitoring: observed measurements vs. independent reference geometry",
    "C04": "runtime monitoring: combined evaluations vs. combination of observed parts",
    "C05": "runtime monitoring: grid oracle on exact grids and single departures",
    "C06": "runtime monitoring: axes placement oracle on satisfying and singly broken configurations",
    "C07": "runtime monitoring: structural trace comparison and deep state snapshots around every call",
    "C08": "runtime monitoring: metamorphic trace comparison and least-movement oracle",
    "C09": "runtime monitoring: online checker of the solver's iteration trace",
    "C10": "runtime monitoring: history + executable model of the layout",
    "C11": "runtime monitoring: fault injection of ill-formed calls with before/after snapshots",
    "C12": "runtime monitoring: operation histories checked against an ordered nested dictionary",
    "C13": "runtime monitoring: round-trip and traversal trace checkers",
    "C14": "runtime monitoring: observed matplotlib placement vs. geometry oracle",
    "C15": "runtime monitoring: observed renderer extents vs. solved thickness, with snapshots",
    "C16": "runtime monitoring: compiled / differentiated evaluations vs. direct evaluation and finite differences of the reference",
    "C17": "runtime monitoring: structural invariant checker on constructed primitives",
    "C18": "runtime monitoring: observed artists vs. geometry oracle",
    "C19": "runtime monitoring: metamorphic comparison over numeric representations, aliasing monitors",
    "C21": "runtime monitoring: random histories and concurrent threads (short switch interval) checked against a stateless reference",
    "C22": "runtime monitoring: generated user-defined classes, closest-solution and relation oracles on the solved trees",
    "C23": "runtime monitoring: part-by-part evaluation compared with the whole, single broken relations, parameter replacement with snapshots",
    "C20": "runtime monitoring: contract monitors on the public API over end-to-end figure pipelines",
}
NOTE = ("Held on the generated executions recorded in the evidence file (counts of observed events and distinct situations); "
        "trusts the independent numpy reference formulas, numpy, jax and matplotlib's own accessors. No claim beyond the explored inputs.")
checks = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE})
done = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in done]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "MPLLAYOUT_VERIF", "enable": "No hooks are compiled into /repo: the monitors observe the public API "
               "and matplotlib/jax accessors from the outside (PYTHONPATH=/repo/src), so nothing has to be switched on.",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh ID --replay FILE re-runs one recorded case. Exit 2 = inconclusive or machinery error."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
