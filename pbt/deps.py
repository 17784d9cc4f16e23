"""Make Hypothesis importable by the repository's own Python (offline, from the sandbox's wheelhouse).

The wheels are pure enough to be used unpacked: they are unzipped once into /verif/.deps (git-ignored).  Every check
calls ensure() itself, so nothing depends on setup_cmd's output surviving.
"""
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELHOUSE = "/opt/veriftools/wheels"
NAMES = ("hypothesis-", "sortedcontainers-", "attrs-")


def _wheels():
    found = []
    for name in NAMES:
        c = sorted(w for w in os.listdir(WHEELHOUSE)
                   if w.startswith(name) and w.endswith(".whl") and ("none-any" in w or "cp312" in w))
        if not c:
            raise RuntimeError(f"no wheel for {name} in {WHEELHOUSE}")
        found.append(os.path.join(WHEELHOUSE, c[-1]))
    return found


def ensure():
    target = os.path.join(HERE, ".deps")
    marker = os.path.join(target, "ok")
    if not os.path.exists(marker):
        try:
            tmp = tempfile.mkdtemp(prefix=".deps-", dir=HERE)
        except OSError:
            tmp = tempfile.mkdtemp(prefix="verif-deps-")
            target = tmp
        for w in _wheels():
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        open(os.path.join(tmp, "ok"), "w").close()
        if target != tmp:
            try:
                os.rename(tmp, target)
            except OSError:
                if os.path.exists(marker):
                    shutil.rmtree(tmp)
                else:
                    target = tmp
    return target


if __name__ == "__main__":
    print(ensure())
