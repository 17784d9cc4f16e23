"""The other side of the P27 comparison: a process in the default configuration that executes the same cases.

Started lazily by a worker; one JSON request per line on stdin, one JSON answer per line on the original stdout.
"""
import json
import os
import subprocess
import sys

_proc = None


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.path[:0] = json.loads(os.environ["PBT_PATH"])
    import importlib
    mod = importlib.import_module("pbt.props.p27")
    for line in sys.stdin:
        out.write(json.dumps(mod.outcome(json.loads(line))) + "\n")
        out.flush()


def ask(case):
    """The outcome of the case in the default configuration."""
    global _proc
    from pbt.common import HarnessError
    if _proc is None:
        env = {k: v for k, v in os.environ.items() if not k.startswith("XTRUCTURE_") and k != "PBT_PLATFORM"}
        env["PBT_PATH"] = json.dumps([p for p in sys.path if p])
        _proc = subprocess.Popen([sys.executable, "-m", "pbt.partner"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    try:
        _proc.stdin.write(json.dumps(case) + "\n")
        _proc.stdin.flush()
        line = _proc.stdout.readline()
    except OSError as e:
        raise HarnessError(f"partner process: {e}")
    if not line:
        raise HarnessError(f"partner process ended with {_proc.wait()}")
    return json.loads(line)


if __name__ == "__main__":
    serve()
