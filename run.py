#!/usr/bin/env python3
"""Runs the generated-input checks of one property.

  run.py P01 [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale X]

exit 0: held on everything explored; exit 1: a line "VIOLATION property=<id> replay=<path>"; else: the check is broken.
Random choices depend only on VERIF_SEED.  VERIF_REPO points the checks at another tree (development only).
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
from pbt import deps  # noqa: E402

HANG_S = int(os.environ.get("VERIF_HANG_S", "120"))
MAX_PROCS = int(os.environ.get("VERIF_PROCS", "8"))


def worker_env(extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith("XTRUCTURE_")}
    env.update(JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NO_COLOR="", TERM="dumb", COLUMNS="200",
               XLA_FLAGS="--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               PYTHONPATH=HERE + os.pathsep + os.path.realpath(REPO))
    env.pop("NO_COLOR")
    env.pop("JAX_ENABLE_X64", None)
    env.update(extra)
    return env


class Job:
    def __init__(self, spec, env, scratch, idx):
        self.spec, self.idx = spec, idx
        self.path = os.path.join(scratch, f"job{idx}.json")
        self.out = os.path.join(scratch, f"out{idx}.json")
        spec["out"] = self.out
        self.env, self.proc, self.log = env, None, os.path.join(scratch, f"log{idx}.txt")

    def start(self):
        json.dump(self.spec, open(self.path, "w"))
        self.started = time.time()
        self.proc = subprocess.Popen([PY, "-m", "pbt.worker", self.path], cwd=HERE, env=worker_env(self.env),
                                     stdout=open(self.log, "w"), stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()

    def last_beat(self):
        try:
            return max(self.started, os.path.getmtime(self.out + ".current"))
        except OSError:
            return self.started

    def current_case(self):
        try:
            return json.load(open(self.out + ".current"))
        except Exception:
            return None

    def tail(self):
        try:
            return open(self.log).read()[-3000:]
        except OSError:
            return ""


def run_single(prop, sub, env, case, scratch, idx, depsdir, limit):
    """One case in a fresh process: ('ok'|'fail'|'hang'|'crash', detail)."""
    j = Job(dict(property=prop, sub=sub, case=case, deps=depsdir, repo=REPO), env, scratch, f"s{idx}")
    j.start()
    try:
        j.proc.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        j.kill()
        return "hang", {"type": "Timeout", "message": f"did not finish within {limit} s"}
    if j.proc.returncode != 0:
        if j.proc.returncode < 0:
            return "crash", {"type": "Crash", "message": f"process died with signal {-j.proc.returncode}", "traceback": j.tail()}
        return "error", {"type": "Error", "message": j.tail()}
    r = json.load(open(j.out))
    return ("fail", r["failure"]) if r["failure"] else ("ok", None)


def load_known():
    path = os.path.join(HERE, "known_findings.jsonl")
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                known.append(json.loads(line))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    os.environ["VERIF_TIER"] = a.tier
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    depsdir = deps.ensure()
    prop = a.property.upper()
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    jobs = []
    try:
        rc = _main(a, prop, seed, depsdir, scratch, jobs, t0)
    finally:
        for j in jobs:
            j.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def describe_subs(prop, scratch, depsdir):
    """Ask a child process for the sub-checks (the modules import the code under test)."""
    code = ("import sys,json,importlib;sys.path.insert(0,%r);sys.path.insert(0,%r);"
            "m=importlib.import_module('pbt.props.'+%r);"
            "print('\\n@@'+json.dumps([dict(name=s.name,quick=s.quick,thorough=s.thorough,shards=s.shards,env=s.env,rule=s.rule) for s in m.SUBS]))"
            % (depsdir, os.path.realpath(REPO), prop.lower()))
    r = subprocess.run([PY, "-c", code], cwd=HERE, env=worker_env({}), capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        print(r.stdout[-2000:], r.stderr[-4000:])
        raise SystemExit(3)
    return json.loads(r.stdout.split("@@")[-1])


def _main(a, prop, seed, depsdir, scratch, jobs, t0):
    subs = describe_subs(prop, scratch, depsdir)
    by_name = {s["name"]: s for s in subs}
    if a.replay:
        rep = json.load(open(a.replay))
        status, detail = run_single(prop, rep["sub"], by_name[rep["sub"]]["env"], rep["case"], scratch, 0, depsdir, 300)
        print(status, json.dumps(detail, indent=1) if detail else "")
        if status in ("fail", "hang", "crash"):
            print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
            return 1
        return 0 if status == "ok" else 3

    if a.sub:
        subs = [s for s in subs if s["name"] == a.sub]
    quick = a.tier == "quick"
    budget = 240 if quick else 3600
    for si, s in enumerate(subs):
        total = max(1, int((s["quick"] if quick else s["thorough"]) * a.scale))
        shards = s["shards"]
        for sh in range(shards):
            n = total // shards + (1 if sh < total % shards else 0)
            if n <= 0:
                continue
            h = hashlib.blake2b(f"{seed}|{prop}|{s['name']}|{sh}".encode(), digest_size=8).digest()
            spec = dict(property=prop, sub=s["name"], shard=sh, n=n, seed=int.from_bytes(h, "big"), deps=depsdir,
                        repo=REPO, budget_s=budget, shrink_s=45 if quick else 180)
            jobs.append(Job(spec, s["env"], scratch, len(jobs)))
    pending, running, done = list(jobs), [], []
    failures, errors = [], []
    while pending or running:
        while pending and len(running) < MAX_PROCS:
            j = pending.pop(0)
            j.start()
            running.append(j)
        time.sleep(0.05)
        for j in list(running):
            if failures:
                break
            rc = j.proc.poll()
            if rc is None:
                if time.time() - j.last_beat() > HANG_S:
                    case = j.current_case()
                    j.kill()
                    running.remove(j)
                    if case is None:
                        errors.append(f"worker {j.spec['sub']}/{j.spec['shard']} stuck before its first case")
                        continue
                    st, det = run_single(prop, j.spec["sub"], j.env, case, scratch, j.idx, depsdir, HANG_S)
                    if st in ("hang", "fail", "crash"):
                        failures.append(dict(sub=j.spec["sub"], case=case, **{k: det[k] for k in det if k != "case"}))
                    else:
                        errors.append(f"worker {j.spec['sub']} stalled but its case runs alone: {st}")
                continue
            running.remove(j)
            if rc != 0 or not os.path.exists(j.out):
                case = j.current_case()
                if case is not None and rc is not None and rc < 0:  # a runaway case is killed again when it runs alone
                    st, det = run_single(prop, j.spec["sub"], j.env, case, scratch, j.idx, depsdir, HANG_S)
                    if st in ("hang", "fail", "crash"):
                        failures.append(dict(sub=j.spec["sub"], case=case, **{k: det[k] for k in det if k != "case"}))
                        continue
                errors.append(f"worker {j.spec['sub']}/{j.spec['shard']} exit {rc}: {j.tail()}")
                continue
            r = json.load(open(j.out))
            if r.get("harness"):
                errors.append(f"harness error in {j.spec['sub']}: {json.dumps(r['harness'], indent=1)}")
                continue
            done.append((j, r))
            if r["failure"]:
                failures.append(dict(sub=j.spec["sub"], **r["failure"]))
        if failures:
            for j in running:
                j.kill()
            running, pending = [], []

    evaluations = sum(r["evaluations"] for _, r in done)
    nontrivial = set()
    labels, samples, per_sub = {}, [], {}
    for j, r in done:
        nontrivial |= {j.spec["sub"] + h for h in r["nontrivial"]}
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        ps = per_sub.setdefault(j.spec["sub"], dict(evaluations=0, distinct_nontrivial=0, skipped_after_budget=0))
        ps["evaluations"] += r["evaluations"]
        ps["distinct_nontrivial"] += len(r["nontrivial"])
        ps["skipped_after_budget"] += r["skipped_after_budget"]
        if r["samples"] and sum(1 for s in samples if s["sub"] == j.spec["sub"]) < 2 and len(samples) < 12:
            samples.append(dict(sub=j.spec["sub"], case=r["samples"][-1]))

    # known findings: replay each listed case; still failing => KNOWN-FINDING line, not a violation
    known_lines, known_cases = [], 0
    for k in load_known():
        if k.get("property") != prop or k.get("status") != "known":
            continue
        known_cases += 1
        st, _ = run_single(prop, k["sub"], by_name[k["sub"]]["env"], k["case"], scratch, f"k{known_cases}", depsdir, HANG_S)
        if st != "ok":
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    for l in known_lines:
        print(l)

    ev = dict(property=prop, tier=a.tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontrivial),
                            rule="; ".join(f"[{s['name']}] {s['rule']}" for s in subs if s["rule"]) or "see DESIGN.md",
                            samples=samples, per_check=per_sub, classes=dict(sorted(labels.items())),
                            known_findings_replayed=known_cases),
              assumptions=["CPU backend of JAX; 64-bit mode off unless a sub-check says otherwise",
                           "results are compared with an explicit reference model written in NumPy/Python"],
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop}.json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))

    if failures:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        failures.sort(key=lambda f: len(json.dumps(f["case"])))
        f = failures[0]
        h = hashlib.blake2b(json.dumps(f["case"], sort_keys=True).encode(), digest_size=5).hexdigest()
        path = os.path.join(HERE, "replays", f"{prop}-{f['sub']}-{h}.json")
        json.dump(dict(property=prop, **f), open(path, "w"), indent=1)
        print(f"{f['sub']}: {f['type']}: {f['message']}")
        print(f"case: {json.dumps(f['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 3
    skipped = sum(p["skipped_after_budget"] for p in per_sub.values())
    print(f"{prop} ok: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {ev['wall_s']} s"
          + (f", {skipped} cases not run (time budget)" if skipped else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
