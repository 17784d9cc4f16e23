"""P02: handles are stable, unaliased and retrieve their states after every later step."""
from pbt import big, tables as T
from pbt.common import Sub, x64

RULE = "as P01, every handle given out is re-read after every operation; non-trivial: the table grew from a non-empty state and holds at least 3 states"
SUBS = [Sub("handles", lambda sh: T.case_strategy(sh, 3, 12), lambda c: T.run_case(c, handles=True), quick=1600, shards=8, rule=RULE)]
SUBS.append(Sub("large", big.table_strategy(big.TABLES), big.run_table, quick=24, thorough=400, shards=4, rule=big.TABLE_RULE))
SUBS += x64(SUBS, handles=120)
