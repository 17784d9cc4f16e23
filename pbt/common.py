"""Things every property module uses."""
import os


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(BaseException):
    """The harness itself is broken (never a verdict about the code under test)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def tier():
    return os.environ.get("VERIF_TIER", "quick")


class Sub:
    """One generated check.

    name      identifies it in replay files
    strategy  callable(shard:int) -> hypothesis strategy of JSON-able cases
    run       callable(case) -> (nontrivial: bool, labels: iterable[str]); raises on a violation
    quick     cases per run in the quick tier (all shards together), thorough likewise
    shards    how many worker processes share it
    env       environment of the workers (read by the code under test at import)
    """

    def __init__(self, name, strategy, run, quick, thorough=None, shards=1, env=None, rule=""):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.shards, self.env, self.rule = shards, env or {}, rule


def x64(subs, **quick):
    """Variants of the named sub-checks in JAX's 64-bit mode, where layouts and keys also use 64-bit types (see layouts.PRIM)."""
    by = {s.name: s for s in subs}
    out = []
    for name, n in quick.items():
        s = by[name.replace("_", "-")]
        out.append(Sub(s.name + "-x64", lambda sh, f=s.strategy: f(sh + 5), s.run, quick=n, thorough=10 * n, shards=1, env={**s.env, "JAX_ENABLE_X64": "1"}, rule=f"as {s.name}, in 64-bit mode with 64-bit fields and keys"))
    return out
