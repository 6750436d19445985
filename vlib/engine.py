"""Case scheduler run inside worker processes."""
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback

import numpy as np

from .common import Recorder, Violation, Skip, case_rng, short

REPO_SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"


def _load(prop):
    mod = importlib.import_module(f"checks.{prop.lower()}")
    import mpllayout
    path = os.path.abspath(list(mpllayout.__path__)[0])
    if not path.startswith(REPO_SRC):
        raise RuntimeError(f"monitoring the wrong code: {path}")
    return mod


class DoesNotEnd(BaseException):
    """Raised in a case which is still computing after LIMIT seconds (usual cases take less than 20)."""


LIMIT = 240.0


class Watch:
    """Interrupts a case which neither returns nor merely waits for a busy machine."""

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.t, self.cpu = time.monotonic(), time.process_time()
            self.old = signal.signal(signal.SIGALRM, self.ring)
            signal.setitimer(signal.ITIMER_REAL, 20.0, 20.0)

    def ring(self, *_):
        if time.monotonic() - self.t > LIMIT and time.process_time() - self.cpu > LIMIT / 2:
            raise DoesNotEnd()

    def __exit__(self, *_):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


def run_case(mod, prop, seed, group, idx, rec):
    """Run one case; returns a violation record or None."""
    rng = case_rng(prop, seed, group, idx)
    fn = mod.GROUPS[group]["fn"]
    rec.cases += 1
    try:
        with Watch():
            fn(rng, rec, idx)
    except DoesNotEnd:
        return {"property": prop, "group": group, "idx": idx, "seed": seed, "message": f"the case did not end within {LIMIT:.0f} s",
                "key": None, "trace": traceback.format_exc()[-3000:], "stuck": True}
    except Skip as e:
        rec.skips[str(e)] = rec.skips.get(str(e), 0) + 1
        return None
    except Violation as e:
        return {"property": prop, "group": group, "idx": idx, "seed": seed, "message": str(e)[:3000],
                "key": getattr(e, "key", None), "trace": traceback.format_exc()[-3000:]}
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        # A valid use of the package raised: the property cannot be satisfied for this case.
        tb = traceback.extract_tb(e.__traceback__)
        return {"property": prop, "group": group, "idx": idx, "seed": seed,
                "message": f"unexpected {type(e).__name__}: {short(str(e), 800)}",
                "in_repo": any(f.filename.startswith(REPO_SRC) for f in tb),
                "key": None, "trace": traceback.format_exc()[-4000:]}
    finally:
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return None


def worker(prop, tier, seed, index, workers, out, scale, deadline):
    mod = _load(prop)
    rec = Recorder()
    violations = []
    stopped = False
    plan = []
    for g, spec in mod.GROUPS.items():
        n = spec.get(tier, spec["quick"])
        n = max(1, int(round(n * scale)))
        plan += [((i + 0.5) / n, g, i) for i in range(n)]
    # Interleave the groups so that an early stop still covers all of them
    plan.sort()
    for k, (_, g, i) in enumerate(plan):
        if k % workers != index:
            continue
        if time.time() > deadline:
            stopped = True
            break
        v = run_case(mod, prop, seed, g, i, rec)
        if v is not None:
            violations.append(v)
            if len(violations) >= 3 or v.get("stuck"):
                break
        if k % 64 == 0:
            _clear_caches()
    with open(out + ".tmp", "w") as f:
        json.dump({"rec": rec.dump(), "violations": violations, "stopped_early": stopped}, f)
    os.replace(out + ".tmp", out)


_n = [0]


def _clear_caches():
    """jax keeps every compiled function alive; drop them now and then."""
    _n[0] += 1
    if _n[0] % 4 == 0 and "jax" in sys.modules:
        sys.modules["jax"].clear_caches()


def replay(path):
    d = json.load(open(path))
    mod = _load(d["property"])
    rec = Recorder()
    v = run_case(mod, d["property"], d["seed"], d["group"], d["idx"], rec)
    if v is None:
        print("replay: property held")
        return 0
    print(v["message"])
    print(v["trace"])
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1
