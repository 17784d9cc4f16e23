"""One worker process: drives one sub-check with Hypothesis, writes a JSON result.

usage: python -m pbt.worker JOB.json      (see run.py)
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback


def main():
    job = json.load(open(sys.argv[1]))
    sys.path.insert(0, job["deps"])
    root = os.path.realpath(job["repo"])
    sys.path.insert(0, root)
    from pbt import cov

    cov.start(root)
    import xtructure

    if not os.path.realpath(xtructure.__file__).startswith(root + os.sep):
        raise SystemExit(f"xtructure imported from {xtructure.__file__}, not from {root}")
    import jax

    from pbt.common import HarnessError, Violation

    mod = importlib.import_module("pbt.props." + job["property"].lower())
    sub = next(s for s in mod.SUBS if s.name == job["sub"])
    out = {"evaluations": 0, "skipped_after_budget": 0, "labels": {}, "samples": [], "nontrivial": [],
           "failure": None, "elapsed": 0.0}
    current = job["out"] + ".current"
    t0 = time.time()

    def describe(e):
        tb = traceback.format_exception(type(e), e, e.__traceback__)
        return {"type": type(e).__name__, "message": str(e)[:2000], "traceback": "".join(tb)[-3000:]}

    if job.get("case") is not None:  # replay of one case
        out["evaluations"] = 1
        try:
            sub.run(job["case"])
        except HarnessError:
            raise
        except Exception as e:
            out["failure"] = {"case": job["case"], **describe(e)}
        json.dump(out, open(job["out"], "w"))
        return

    from hypothesis import HealthCheck, Phase, given, seed, settings

    seen = set()
    state = {"best": None, "best_key": None, "fail_keys": set(), "first_fail_at": None, "harness": None}
    deadline = t0 + job["budget_s"]

    def body(case):
        key = json.dumps(case, sort_keys=True)
        now = time.time()
        if state["harness"] is not None:
            return
        if state["first_fail_at"] is not None:
            if now - state["first_fail_at"] > job["shrink_s"] and key not in state["fail_keys"]:
                return
        elif now > deadline:
            out["skipped_after_budget"] += 1
            return
        h = hashlib.blake2b(key.encode(), digest_size=8).hexdigest()
        with open(current, "w") as f:
            f.write(key)
        if state["first_fail_at"] is None:
            out["evaluations"] += 1
        try:
            nontrivial, labels = sub.run(case)
        except HarnessError as e:
            state["harness"] = describe(e)
            return
        except MemoryError as e:
            state["harness"] = describe(e)
            return
        except Exception as e:
            if state["first_fail_at"] is None:
                state["first_fail_at"] = now
            state["fail_keys"].add(key)
            if state["best"] is None or len(key) <= len(state["best_key"]):
                state["best"], state["best_key"] = {"case": case, **describe(e)}, key
            raise
        if state["first_fail_at"] is None:
            for l in labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if nontrivial and h not in seen:
                seen.add(h)
                if len(out["samples"]) < 2 and len(key) < 3000 and len(seen) > 10:
                    out["samples"].append(case)
                elif len(out["samples"]) == 0 and len(key) < 6000:
                    out["samples"].append(case)
            if out["evaluations"] % 400 == 0:
                jax.clear_caches()

    test = given(sub.strategy(job["shard"]))(body)
    test = settings(max_examples=job["n"], database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False)(test)
    test = seed(job["seed"])(test)
    try:
        test()
    except Exception as e:
        if state["best"] is None:
            out["harness"] = describe(e)
    if state["harness"] is not None:
        out["harness"] = state["harness"]
    out["failure"] = state["best"]
    out["nontrivial"] = sorted(seen)
    out["elapsed"] = time.time() - t0
    json.dump(out, open(job["out"] + ".tmp", "w"))
    os.rename(job["out"] + ".tmp", job["out"])


if __name__ == "__main__":
    main()
