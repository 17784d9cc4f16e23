"""P07: values stay with their keys (every inserted value row is unique; keys tie heavily)."""
from hypothesis import strategies as st

from pbt import big, heaps as H
from pbt.common import Sub, x64

RULE = ("histories over nested / packed / array-valued value layouts with every inserted row pairwise different and keys from a small "
        "range (many ties); non-trivial: at least two non-empty inserts and one delete from a non-empty queue")


def tie_case(shard, configs=None):
    def ops(c):
        batch = H.CONFIGS[c][2]
        key = st.integers(0, 3)
        ins = st.integers(0, batch).flatmap(lambda n: st.lists(key, min_size=n, max_size=n))
        op = st.one_of(st.tuples(st.just("ins"), ins, st.sampled_from(["mb", "mbl", "mid"])).map(list),
                       st.tuples(st.just("ins"), st.lists(key, min_size=batch, max_size=batch), st.sampled_from(["mb", "mbl", "mid"])).map(list),
                       st.just(["del"]), st.just(["snap"]))
        return st.integers(2, 30).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))

    cfgs = configs or list(range(len(H.CONFIGS)))
    mine = [c for i, c in enumerate(cfgs) if i % 8 == shard % 8] or cfgs
    return st.sampled_from(mine).flatmap(lambda c: st.fixed_dictionaries({"cfg": st.just(c), "ops": ops(c)}))


SUBS = [
    Sub("ties", tie_case, lambda c: H.run_case(c), quick=2400, shards=8, rule=RULE),
    Sub("ties-concat", lambda sh: tie_case(sh + 5), lambda c: H.run_case(c), quick=300, shards=2, rule="same, value reordering through concatenation",
        env={"XTRUCTURE_BGPQ_VALUE_REORDER": "concat"}),
    Sub("ties-unstable", lambda sh: tie_case(sh + 3), lambda c: H.run_case(c), quick=300, shards=2, rule="same, unstable block sort",
        env={"XTRUCTURE_BGPQ_SORT_STABLE": "0"}),
]
SUBS += [Sub("large" + n, big.heap_strategy(big.HEAPS), big.run_heap, quick=20, thorough=300, shards=4, rule=big.HEAP_RULE if not n else "the same, concatenating backend", env=e)
         for n, e in (("", {}), ("-concat", {"XTRUCTURE_BGPQ_VALUE_REORDER": "concat"}))]
SUBS += x64(SUBS, ties=200)
