"""P04: nearly full, overfull and probe-limited tables stay truthful."""
from hypothesis import strategies as st

from pbt import big
from pbt import tables as T
from pbt.common import Sub, tier, x64

RULE = ("histories on tables of 4-24 slots driven to and past their capacity, with probe limits from 1 to unlimited and colliding hash "
        "functions; non-trivial: at least one insertion was refused, or the table was filled beyond its nominal capacity")
# (layout, capacity, bucket, seed, batch, mode, multiplier, max_probes)
CONFIGS = []
_i = 0
for mode in T.MODES:
    for cap, bucket, mult, mp in [(8, 4, 1, None), (6, 2, 2, None), (5, 1, 1, None), (16, 8, 1, 8), (12, 4, 1, 4), (8, 2, 2, 6), (10, 3, 1, 1), (4, 8, 2, None)]:
        CONFIGS.append((_i % len(T.L.POOL), cap, bucket, _i, [3, 6, 9, 14][_i % 4], mode, mult, mp))
        _i += 1


def strategy(shard):
    mine = [i for i in range(len(CONFIGS)) if i % 8 == shard % 8]
    if tier() == "quick":
        mine = [i for n, i in enumerate(mine) if (n + i) % 2 == 0]
    return st.sampled_from(mine).flatmap(
        lambda c: st.fixed_dictionaries({"cfg": st.just(c), "ops": T.ops_strategy(CONFIGS[c][4], 4, 24)}))


def run(case):
    li, cap, bucket, seed, blen, mode, mult, mp = CONFIGS[case["cfg"]]
    d = T.Driver(li, cap, bucket, seed, blen, mode, mult=mult, max_probes=mp)
    snaps = []
    for op in case["ops"]:
        if op[0] == "snap":
            snaps.append((d.table, dict(d.model)))
            continue
        T.apply(d, op, must=False)
    d.check_all()
    d.check_handles()
    for c in sorted(d.model)[:4]:
        d.lookup(c)
        d.insert(c, must=False)
    for t, m in snaps[:2]:
        d.check_all(t, m)
    refused = "batch rejected" in d.labels or "single rejected" in d.labels
    if len(d.model) > cap:
        d.labels.add("beyond capacity")
    return refused or len(d.model) > cap, sorted(d.labels | {"hash:" + mode, "limit" if mp else "no limit"})


SUBS = [Sub("full", strategy, run, quick=1000, shards=8, rule=RULE)]
for name in ("gpu", "tpu"):  # the accelerator insertion kernels, interpreted
    SUBS.append(Sub("full-" + name, lambda sh, o=len(SUBS): strategy(sh * 3 + o + 2), run, quick=60, thorough=2000, shards=2, rule="same", env={"PBT_PLATFORM": name}))
SUBS.append(Sub("large", big.table_strategy(big.OVERFULL, 4, 9), big.run_table, quick=40, thorough=500, shards=4,
                rule="tables of 500-1200 nominal slots offered more states than they hold, or with probe limits, by batches of 100-500 rows and scans of 200 single insertions; vectorised oracle; "
                     "non-trivial: something was rejected"))
SUBS += x64(SUBS, full=100)
