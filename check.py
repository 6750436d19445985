#!/usr/bin/env python3
"""Entry point of all checks: `run.sh ID [--tier quick|thorough] [--replay FILE] [--workers N] [--scale F]`.

Exit status: 0 held on everything explored, 1 violation (with VIOLATION line), 2 inconclusive / machinery error.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def load_known():
    """known_findings.txt: 'fixed: ...' lines (suppress nothing) and 'known: property=<id> key=<key> <what fails>'."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if line.startswith("known:"):
                toks = line[len("known:"):].split(None, 2)
                out.append({"property": toks[0].split("=", 1)[1], "key": toks[1].split("=", 1)[1],
                            "text": toks[2] if len(toks) > 2 else ""})
    return out


def worker_main(args):
    import faulthandler
    faulthandler.enable()
    import warnings
    warnings.simplefilter("ignore")
    from vlib import engine
    engine.worker(args.prop, args.tier, args.seed, args.worker_index, args.workers, args.out, args.scale,
                  args.deadline)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--worker-index", type=int, default=-1)
    ap.add_argument("--out")
    ap.add_argument("--deadline", type=float, default=0)
    args = ap.parse_args()
    sys.path.insert(0, HERE)

    if args.worker_index >= 0:
        return worker_main(args)
    if args.replay:
        from vlib import engine
        return engine.replay(args.replay)

    t0 = time.time()
    nw = args.workers or max(1, min(8, os.cpu_count() or 1))
    # Total time after which workers stop taking new cases (never reached on the reference machine).
    budget = {"quick": 600.0, "thorough": 6 * 3600.0}.get(args.tier, 600.0)
    deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix=f"verif-{args.prop}-")
    procs = []
    try:
        for w in range(nw):
            out = os.path.join(tmp, f"w{w}.json")
            log = open(os.path.join(tmp, f"w{w}.log"), "wb")
            env = dict(os.environ)
            env["VERIF_SCRATCH"] = os.path.join(tmp, f"scratch{w}")
            os.makedirs(env["VERIF_SCRATCH"])
            cmd = [sys.executable, os.path.join(HERE, "check.py"), args.prop, "--tier", args.tier, "--seed",
                   str(args.seed), "--workers", str(nw), "--worker-index", str(w), "--out", out,
                   "--scale", str(args.scale), "--deadline", str(deadline)]
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=HERE), out,
                          os.path.join(tmp, f"w{w}.log")))
        hard = deadline + (200 if args.tier == "quick" else 3600)
        results, errors = [], []
        for p, out, log in procs:
            try:
                rc = p.wait(timeout=max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            if os.path.exists(out):
                results.append(json.load(open(out)))
            if rc != 0 or not os.path.exists(out):
                errors.append((rc, open(log, errors="replace").read()[-3000:]))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    from vlib import report
    return report.finish(args.prop, args.tier, args.seed, results, errors, load_known(), time.time() - t0)


if __name__ == "__main__":
    sys.exit(main())
