"""Evidence, violation lines and exit status (imports nothing from the code under test)."""
import importlib
import json
import os

from .common import Recorder

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def finish(prop, tier, seed, results, errors, known, wall):
    meta = importlib.import_module(f"checks.meta").META[prop]
    rec = Recorder()
    violations = []
    stopped = False
    for r in results:
        rec.merge(r["rec"])
        violations += r["violations"]
        stopped = stopped or r.get("stopped_early", False)

    floors = {k: v for k, v in meta["floors"].items()} if tier == "quick" else meta["floors"]
    scale_missing = {k: (rec.events.get(k, 0), v) for k, v in floors.items() if rec.events.get(k, 0) < v}

    keyed = {(k["property"], k["key"]): k for k in known}
    fresh = []
    seen_known = set()
    for v in violations:
        k = keyed.get((prop, v.get("key") or ""))
        if k is not None:
            seen_known.add(k["key"])
        else:
            fresh.append(v)

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(rec.events.values()),
            "cases": rec.cases,
            "distinct_nontrivial": len(rec.states),
            "rule": meta["rule"],
            "samples": rec.samples or ["(none)"],
            "monitored_events": dict(sorted(rec.events.items())),
            "skipped_cases": rec.skips,
            "largest_observed": rec.maxima,
            "floors": meta["floors"],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k in known:
        if k["property"] == prop:
            note = "" if k["key"] in seen_known else " (not reproduced in this run)"
            print(f"KNOWN-FINDING: property={prop} {k['text']}{note}")

    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        shown = set()
        for v in fresh[:5]:
            path = os.path.join(HERE, "replays", f"{prop}-{v['group']}-{v['idx']}-s{v['seed']}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            if path not in shown:
                shown.add(path)
                print(f"  [{v['group']} #{v['idx']}] {v['message']}")
                print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for rc, log in errors[:2]:
            print(f"ERROR: worker ended with {rc}:\n{log}")
        return 2
    if scale_missing:
        print(f"INCONCLUSIVE: too few events observed (seen, needed): {scale_missing}"
              + (" (time budget reached)" if stopped else ""))
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={rec.cases} distinct={len(rec.states)} "
          f"events={sum(rec.events.values())} wall={wall:.1f}s")
    return 0
