"""P06: batched priority queue returns the smallest keys (model: sorted list)."""
from pbt import big, heaps as H
from pbt.common import Sub, x64

RULE = ("histories of insert (partial, full, infinity-padded blocks) / delete / snapshot over 16 configurations; non-trivial: at least two "
        "non-empty inserts and a delete from a non-empty queue before the final drain")
SUBS = [
    Sub("history", lambda sh: H.case_strategy(sh), lambda c: H.run_case(c), quick=2400, shards=8, rule=RULE),
]
SUBS += [
    Sub("deep", big.deep_strategy, big.run_deep, quick=60, thorough=1500, shards=3, rule=big.DEEP_RULE),
    Sub("large", big.heap_strategy(big.HEAPS), big.run_heap, quick=36, thorough=500, shards=4, rule=big.HEAP_RULE),
    Sub("huge", big.heap_strategy(big.HUGE_HEAPS), big.run_heap, quick=2, thorough=40, shards=2, rule="the same"),
]
SUBS += x64(SUBS, history=200, large=6)
