"""Turns a planted-bug description into seeded/<id>/ after confirming it in scratch copies.

usage: plant.py DESCRIPTIONS.py [ID ...]      (DESCRIPTIONS defines BUGS: list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo))
Confirms: removed lines are the original repository's, the demo passes on the clean tree and fails with the patch, the stable tests pass with the patch.
Then runs the property's quick check against the patched copy and prints whether it caught the change.
"""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "86ffb69"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def demo(folder, tree):
    e = {"PYTHONDONTWRITEBYTECODE": "1", "JAX_PLATFORMS": "cpu", "PYTHONPATH": ""}
    return sh(f"bash {folder}/demo.sh", tree, e, 300)


def tests(tree):
    env = dict(HOME="/root", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"/opt/vp/env:{tree}")
    r = sh("/opt/venv/bin/python -m pytest -q -n 6 -p no:cacheprovider -p vp_seed --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 "
           f"--junitxml={tree}/junit.xml --ignore=tests/heap_test.py --deselect tests/hash_test.py::test_large_hash_table tests", tree, env)
    import xml.etree.ElementTree as E
    bad = set()
    seen = set()
    for c in E.parse(f"{tree}/junit.xml").getroot().iter("testcase"):
        n = f"{c.get('classname')}::{c.get('name')}"
        seen.add(n)
        if any(k.tag in ("failure", "error", "skipped") for k in c):
            bad.add(n)
    return sorted((STABLE & bad) | (STABLE - seen)), r.stdout[-200:]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for b in bugs:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        out = os.path.join(HERE, "seeded", b["id"])
        tree = f"/tmp/plant-{os.getpid()}-{b['id']}"
        clean = tree + "-clean"
        for t in (tree, clean):
            shutil.copytree("/repo", t, ignore=shutil.ignore_patterns("build", "__pycache__"), symlinks=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(tree, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "REJECT: text occurs", s.count(old), "times in", f, repr(old[:60]))
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = sh("git diff", tree).stdout
                blame_bad, removed = [], 0
                cur = None
                for line in diff.splitlines():
                    if line.startswith("--- a/"):
                        cur = line[6:]
                    elif line.startswith("@@"):
                        n = int(re.match(r"@@ -(\d+)", line).group(1))
                    elif line.startswith("-") and not line.startswith("---"):
                        removed += 1
                        bl = sh(f"git blame -l -L {n},{n} HEAD -- {cur}", clean).stdout.lstrip("^")
                        if not bl.startswith(BASE):
                            blame_bad.append((cur, n))
                        n += 1
                    elif not line.startswith(("+", "diff", "index", "\\")):
                        n += 1
                if blame_bad or not removed:
                    print(b["id"], "REJECT: lines not of the original repository", blame_bad, removed)
                    continue
                tmp = tree + "-demo"
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
                open(tmp + "/demo.py", "w").write(b["demo"].lstrip("\n"))
                open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\n' + "".join(f"export {k}={v}\n" for k, v in b.get("env", {}).items()) +
                                                  'PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                a, c = demo(tmp, clean), demo(tmp, tree)
                if a.returncode or not c.returncode:
                    print(b["id"], "REJECT: demo clean rc", a.returncode, "patched rc", c.returncode, (a.stderr if a.returncode else c.stdout + c.stderr)[-600:])
                    continue
                failed, tail = tests(tree)
                if failed:
                    print(b["id"], "REJECT: tests fail", failed[:5], tail[-120:])
                    continue
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                open(out + "/patch.diff", "w").write(diff)
                for f in ("demo.py", "demo.sh"):
                    shutil.copy(os.path.join(tmp, f), out)
                os.chmod(out + "/demo.sh", 0o755)
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                t = time.time()
                r = sh(f"python3 run.py {b['prop']} --tier quick", HERE, {"VERIF_REPO": tree, "VERIF_SEED": "1"})
                line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                print(b["id"], b["prop"], "CAUGHT" if r.returncode == 1 and line else f"MISSED rc={r.returncode}", f"{time.time() - t:.0f}s", (r.stdout + r.stderr).splitlines()[0][:200] if r.stdout + r.stderr else "", flush=True)
                for x in line:
                    for f in glob.glob(re.search(r"replay=(\S+)", x).group(1)):
                        os.remove(f)
        finally:
            for t in (tree, clean, tree + "-demo"):
                shutil.rmtree(t, ignore_errors=True)


main()
