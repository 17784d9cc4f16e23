"""Line coverage of the code under test, for finding what no check reaches (PBT_COV=DIR; not used by any registered check)."""
import atexit
import os
import sys


def start(root):
    where = os.environ.get("PBT_COV")
    if not where:
        return
    mon = sys.monitoring
    mon.use_tool_id(3, "pbt")
    seen = set()
    prefix = os.path.join(root, "xtructure") + os.sep

    def line(code, n):
        if code.co_filename.startswith(prefix):
            seen.add((code.co_filename[len(root) + 1:], n))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)

    def dump():
        mon.set_events(3, 0)
        with open(os.path.join(where, f"{os.getpid()}.lines"), "w") as f:
            for name, n in sorted(seen):
                f.write(f"{name}:{n}\n")

    atexit.register(dump)
