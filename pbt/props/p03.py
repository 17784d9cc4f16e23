"""P03: batch deduplication, masks, priorities and representatives; every lossless dedupe mode and sort backend."""
import hashlib

import numpy as np
from hypothesis import strategies as st

from pbt import big, tables as T
from pbt.common import Sub, tier, x64

RULE = ("1-4 consecutive batched insertions of 1-20 rows drawn from few states (heavy duplication), every mask form, priorities with ties and "
        "infinities; non-trivial: a batch with a duplicated state and either a mask with unfilled rows, priorities or content from an earlier batch")
BLENS = [1, 3, 5, 8, 13, 20]
# 72 (layout, hash mode, batch length) combinations, shuffled deterministically
CONFIGS = sorted(((li, T.MODES[(li + k) % 6], BLENS[(li * 5 + k) % 6]) for li in range(12) for k in range(6)),
                 key=lambda c: hashlib.sha256(repr(c).encode()).hexdigest())
KEYDT = ["float64", "int64", "uint64", "float32"] if T.L.X64 else ["float32", "int32", "uint32", "float16"]


def mask(n, whole):
    some = st.one_of(st.lists(st.booleans(), min_size=n, max_size=n), st.lists(st.sampled_from([True, True, True, False]), min_size=n, max_size=n))
    return st.one_of(st.just(whole), some, some) if whole is None else st.one_of(st.sampled_from([True, True, False]), some, some)


ALL_ONES = [(1, "std", 5), (1, "const", 8), (1, "low2", 3)]  # single-word states: the default state is all one bits, like the sort's filler


def strategy(shard, extra=()):
    mine = [c for i, c in enumerate(CONFIGS) if i % 8 == shard % 8]
    if tier() == "quick":
        mine = mine[: len(mine) // 3]
    if extra:
        mine = [extra[shard % len(extra)], extra[(shard + 2) % len(extra)]] + mine[: 1]

    def batch(n, whole, keydt):
        few = st.integers(1, 6).flatmap(lambda k: st.lists(st.integers(0, k), min_size=n, max_size=n))
        near = st.integers(0, 4).flatmap(lambda b: st.lists(st.integers(8 * b, 8 * b + 7), min_size=n, max_size=n))
        ints = st.lists(st.integers(0, 3), min_size=n, max_size=n)
        if "int" in keydt:  # neighbours that a detour over a float would merge
            top = int(np.iinfo(keydt).max) - 3
            ints = st.one_of(ints, st.sampled_from([2 ** 24, 2 ** 30, top] + ([2 ** 32, 2 ** 53] if "64" in keydt else [])).flatmap(lambda b: st.lists(st.integers(b, b + 3), min_size=n, max_size=n)))
        return st.fixed_dictionaries({
            "codes": st.one_of(few, near, st.lists(st.sampled_from([3, 3, 4]), min_size=n, max_size=n), st.lists(st.integers(0, T.NCODES - 1), min_size=n, max_size=n)),
            "filled": mask(n, whole),
            "key": st.one_of(st.none(), ints if "int" in keydt else T.key_strategy(n), ints), "keydt": st.just(keydt)})

    return st.sampled_from(mine).flatmap(
        lambda t: st.fixed_dictionaries({
            "layout": st.just(t[0]), "mode": st.just(t[1]), "n": st.just(t[2]),
            "seed": st.just(int(np.uint32(t[0] * 31 + t[2]) % 1000)), "bucket": st.just([2, 8, 5, 16][(t[0] + t[2]) % 4]),
            "batches": st.lists(batch(t[2], [None, True][t[2] % 2], KEYDT[(t[0] + t[2]) % 4]), min_size=2, max_size=5)}))


def run(case):
    d = T.Driver(case["layout"], 80, case["bucket"], case["seed"], case["n"], case["mode"])
    nontrivial = False
    for b in case["batches"]:
        key, dt = T.ukey_val(b["key"]), b["keydt"]
        before = set(d.model)
        d.parallel_insert(b["codes"], b["filled"], key, keydt=np.dtype(dt))
        f = b["filled"]
        fl = [True] * case["n"] if f is None else [f] * case["n"] if isinstance(f, bool) else f
        live = [c for c, x in zip(b["codes"], fl) if x]
        if len(set(live)) < len(live) and (not all(fl) or key is not None or before & set(live)):
            nontrivial = True
        if key is not None and live:
            d.labels.add("keys:" + dt)
        if not all(fl) and any(fl):
            d.labels.add("partial mask")
        d.lookup_parallel(b["codes"], None)
    d.check_all()
    d.check_handles()
    return nontrivial, sorted(d.labels | {"hash:" + case["mode"]})


WIDE = [(12, "const", 8), (12, "fp4", 13), (12, "std", 20), (12, "low2", 5)]  # wider than the exact sort takes: rows are compared by signature first
SUBS = [Sub("wide", lambda sh: strategy(sh, WIDE), run, quick=240, shards=2, rule="same"),
        Sub("dedupe", strategy, run, quick=1200, shards=8, rule=RULE)]
for name, env in [("dedupe-exact", {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}),
                  ("dedupe-lax-unstable", {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_unstable"}),
                  ("dedupe-lax-stable", {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_stable"}),
                  ("dedupe-fast", {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "fast"})]:
    SUBS.append(Sub(name, lambda sh, o=len(name): strategy(sh + o, ALL_ONES), run, quick=240, shards=2, rule="same", env=env))
for name, env in [("large", {}), ("large-exact", {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}), ("large-fast", {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "fast"}),
                  ("large-lax-unstable", {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_unstable"})]:
    SUBS.append(Sub(name, big.table_strategy(big.TABLES), big.run_table, quick=16, thorough=300, shards=2, rule=big.TABLE_RULE if name == "large" else "the same", env=env))
SUBS += x64(SUBS, dedupe=120, large=6)
