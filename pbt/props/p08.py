"""P08: overfull priority queues lose only surplus (which pairs survive is read off a drained copy and judged)."""
from pbt import heaps as H
from pbt.common import Sub, x64

RULE = "histories that may exceed the capacity on 10 small configurations; non-trivial: at least one batch was actually lost"
SMALL = [i for i, c in enumerate(H.CONFIGS) if c[1] <= 33]
SUBS = [
    Sub("overfull", lambda sh: H.case_strategy(sh, configs=SMALL, max_ops=26), lambda c: H.run_case(c, over=True), quick=2400, shards=8, rule=RULE),
]
SUBS += x64(SUBS, overfull=200)
