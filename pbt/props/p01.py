"""P01: hash table = set, over histories with forced hash collisions."""
from pbt import big, tables as T
from pbt.common import Sub, x64

RULE = ("histories of insert / parallel_insert (masks, priorities, in-batch duplicates, near-equal states) / lookup / lookup_parallel / snapshot "
        "over 16 configurations, 10 of them with deliberately colliding hash functions; non-trivial: the table grew from a non-empty state and "
        "holds at least 3 states")
SUBS = [Sub("history", lambda sh: T.case_strategy(sh), lambda c: T.run_case(c), quick=1600, shards=8, rule=RULE)]
for name in ("gpu", "tpu"):  # the accelerator insertion kernels, interpreted
    SUBS.append(Sub("history-" + name, lambda sh, o=len(SUBS): T.case_strategy([o, 3][sh % 2]), lambda c: T.run_case(c), quick=60, thorough=2000, shards=2, rule="same", env={"PBT_PLATFORM": name}))
SUBS.append(Sub("large", big.table_strategy(big.TABLES), big.run_table, quick=40, thorough=500, shards=4, rule=big.TABLE_RULE))
SUBS.append(Sub("huge", big.table_strategy(big.HUGE), big.run_table, quick=0, thorough=40, shards=2, rule=""))
SUBS += x64(SUBS, history=120, large=6)
