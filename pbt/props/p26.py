"""P26: sorted-merge primitives produce the complete sorted order."""
import functools
import os

import jax
import numpy as np
from hypothesis import strategies as st

from pbt import interp  # noqa: F401  (before xtructure)
from pbt.common import check, Sub, x64
import jax.numpy as jnp
from pbt import layouts as L
from xtructure.bgpq.merge_split import merge_arrays_indices_loop, merge_arrays_parallel, merge_sort_split_idx
from xtructure.bgpq.merge_split.common import binary_search_partition

DT = {"float32": jnp.float32, "float16": jnp.float16, "bfloat16": jnp.bfloat16, "int32": jnp.int32, "uint32": jnp.uint32, "uint8": jnp.uint8}
SIZES = [(0, 0), (0, 3), (4, 0), (1, 1), (1, 2), (3, 1), (2, 2), (4, 4), (5, 3), (7, 8), (8, 8), (16, 16), (3, 20), (33, 2), (13, 50), (64, 64), (70, 61), (1, 64)]
PAIRS = [("float32", "float32")] * 5 + [("float16", "float16"), ("int32", "int32"), ("uint32", "uint32"), ("bfloat16", "bfloat16"), ("uint8", "uint8"), ("float16", "float32"), ("int32", "float32")]
if L.X64:
    DT.update(float64=jnp.float64, int64=jnp.int64, uint64=jnp.uint64)
    PAIRS = [("float64", "float64"), ("int64", "int64"), ("uint64", "uint64"), ("float32", "float64"), ("int32", "int64")] + PAIRS[4:]
BLOCKS = ["1", "2", "3", "5", "8", "16", None, None]
UNROLL = ["0", "32", None]
FNS = {"loop": merge_arrays_indices_loop, "parallel": merge_arrays_parallel, "sort": merge_sort_split_idx}


def configs(shard):
    """A few shapes, dtypes and kernel configurations per shard: every one of them is compiled once."""
    rng = np.random.RandomState(shard * 7919 + 5)
    out = []
    for k in range(14):
        n, m = SIZES[(shard + 8 * k + rng.randint(2)) % len(SIZES)]
        out.append([n, m, PAIRS[(shard + k) % len(PAIRS)], [["loop", None, None], ["sort", None, None], ["parallel", BLOCKS[(shard + k) % 8], UNROLL[k % 3]], ["parallel", BLOCKS[(shard + 3 * k + 1) % 8], None]]])
    return out


def strategy(shard):
    def fill(c):
        n, m, pair, fns = c
        code = st.one_of(st.integers(0, 3), st.integers(0, 40), st.integers(0, 3))
        return st.fixed_dictionaries({"pair": st.just(list(pair)), "fn": st.sampled_from(fns), "a": st.lists(code, min_size=n, max_size=n), "b": st.lists(code, min_size=m, max_size=m),
                                      "infs": st.tuples(st.integers(0, n), st.integers(0, m)).map(list) if pair[0].endswith(("16", "32", "64")) and "int" not in pair[0] else st.just([0, 0]),
                                      "shift": st.sampled_from([0, 0, 0, -20, 50]), "special": st.booleans()})
    return st.sampled_from(configs(shard)).flatmap(fill)


def keys(codes, name, infs, shift, special):
    d = np.dtype(DT[name])
    v = np.asarray(sorted(codes), dtype=np.float64) + (max(shift, 0) if d.kind == "u" else shift)
    if d.kind not in "iub":
        v = v / 4
        if special and v.size:
            v[0] = -np.inf
    out = v.astype(d)
    if special and v.size and d.kind in "iu":
        out[-1], out[0] = np.iinfo(d).max, np.iinfo(d).min if v.size > 1 else np.iinfo(d).max
    if infs and d.kind not in "iub":
        out[len(out) - min(infs, len(out)):] = np.inf
    return out


def set_env(block, unroll):
    for k, v in (("XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE", block), ("XTRUCTURE_BGPQ_MERGE_UNROLL_MAX", unroll)):
        os.environ.pop(k, None)
        if v is not None:
            os.environ[k] = v


def run(case):
    fn, block, unroll = case["fn"]
    a = keys(case["a"], case["pair"][0], case["infs"][0], case["shift"], case["special"])
    b = keys(case["b"], case["pair"][1], case["infs"][1], 0, case["special"] and case["shift"] == 0)
    set_env(block, unroll)
    ja, jb = jnp.asarray(a), jnp.asarray(b)
    k, idx = FNS[fn](ja, jb)
    set_env(None, None)
    dt = np.dtype(jnp.result_type(ja, jb))
    cat = np.concatenate([a.astype(dt), b.astype(dt)])
    order = np.argsort(cat, kind="stable")
    k, idx = np.asarray(k), np.asarray(idx)
    what = f"{fn} block={block} unroll={unroll} of {len(a)}+{len(b)} {case['pair']}"
    check(k.shape == cat.shape and idx.shape == cat.shape, "{}: shapes {} {}", what, k.shape, idx.shape)
    check(k.dtype == dt, "{}: keys of dtype {}, expected {}", what, k.dtype, dt)
    check(idx.dtype.kind in "iu", "{}: indices of dtype {}", what, idx.dtype)
    check((k == cat[order]).all(), "{}: keys {}, expected {} (a={}, b={})", what, k, cat[order], a, b)
    check((idx == order).all(), "{}: indices {}, expected {} (a={}, b={})", what, idx, order, a, b)
    check((np.asarray(ja) == a).all() and (np.asarray(jb) == b).all(), "{}: inputs changed", what)
    ties = len(np.intersect1d(a, b))
    return len(a) > 0 and len(b) > 0 and not (order == np.arange(len(order))).all(), [fn, "ties" if ties else "no ties", f"block {block}" if fn == "parallel" else fn, case["pair"][0]]


# ---------------------------------------------------------------- keys merged together with their values (accelerator path, interpreted)
KV_SIZES = [(0, 3), (4, 0), (1, 1), (3, 1), (2, 2), (5, 3), (8, 8), (3, 13), (16, 16), (20, 1)]
PACKING = [("auto", None), ("pad", None), ("scalar", None), ("shard", None), ("auto", "4"), ("auto", "64"), (None, None)]


def kv_strategy(shard):
    combos = []
    for k in range(6):
        i = shard * 6 + k
        combos.append([L.POOL[(5 * i + shard) % len(L.POOL)], *KV_SIZES[i % len(KV_SIZES)], ["float32", "float32", "int32", "float16"][i % 4], list(PACKING[(i + shard) % len(PACKING)]),
                       BLOCKS[(3 * i) % 8], UNROLL[i % 3]])

    def fill(c):
        spec, n, m, dt, packing, block, unroll = c
        code = st.one_of(st.integers(0, 3), st.integers(0, 40))
        return st.fixed_dictionaries({"spec": st.just(spec), "dt": st.just(dt), "packing": st.just(packing), "block": st.just([block, unroll]), "a": st.lists(code, min_size=n, max_size=n),
                                      "b": st.lists(code, min_size=m, max_size=m), "infs": st.tuples(st.integers(0, n), st.integers(0, m)).map(list) if "float" in dt else st.just([0, 0]),
                                      "salt": st.integers(0, 10 ** 6)})
    return st.sampled_from(combos).flatmap(fill)


@functools.lru_cache(None)
def compiled_kv(*_settings):
    """One compiled function per setting (the settings are read while tracing)."""
    from xtructure.bgpq.merge_split.parallel import merge_arrays_parallel_kv
    return jax.jit(lambda ak, av, bk, bv: merge_arrays_parallel_kv(ak, av, bk, bv))


def run_kv(case):
    spec, names = case["spec"], ("XTRUCTURE_BGPQ_MERGE_VALUE_PACKING", "XTRUCTURE_BGPQ_MERGE_VALUE_SCALAR_MAX")
    a, b = keys(case["a"], case["dt"], case["infs"][0], 0, False), keys(case["b"], case["dt"], case["infs"][1], 0, False)
    av, bv = L.instance(spec, (len(a),), case["salt"]), L.instance(spec, (len(b),), case["salt"] + 1)
    set_env(*case["block"])
    for k, v in zip(names, case["packing"]):
        os.environ.pop(k, None)
        if v is not None:
            os.environ[k] = v
    try:
        k, v = compiled_kv(*case["packing"], *case["block"])(jnp.asarray(a), av, jnp.asarray(b), bv)
    finally:
        set_env(None, None)
        for n in names:
            os.environ.pop(n, None)
    cat = np.concatenate([a, b])
    order = np.argsort(cat, kind="stable")
    k = np.asarray(k)
    what = f"key-value merge ({case['packing']}, {case['block']}) of {len(a)}+{len(b)} {case['dt']} keys"
    check(k.shape == cat.shape and k.dtype == cat.dtype and (k == cat[order]).all(), "{}: keys {}, expected {}", what, k, cat[order])
    x, y = L.to_np(spec, av), L.to_np(spec, bv)
    d = L.same({p: np.concatenate([x[p], y[p]])[order] for p in x}, L.to_np(spec, v))
    check(d is None, "{}: values: {} (a={}, b={})", what, d, a, b)
    ties = len(np.intersect1d(a, b))
    return len(a) > 0 and len(b) > 0 and not (order == np.arange(len(order))).all(), [str(case["packing"][0]), "ties" if ties else "no ties", case["dt"]]


# ---------------------------------------------------------------- partition
def part_strategy(shard):
    code = st.one_of(st.integers(0, 3), st.integers(0, 40))
    size = st.sampled_from([(1, 1), (3, 5), (8, 8), (16, 3), (2, 30)])
    return size.flatmap(lambda s: st.fixed_dictionaries({"a": st.lists(code, min_size=s[0], max_size=s[0]), "b": st.lists(code, min_size=s[1], max_size=s[1]),
                                                         "infs": st.tuples(st.integers(0, s[0]), st.integers(0, s[1])).map(list), "dt": st.sampled_from(["float32", "int32", "uint32"]),
                                                         "special": st.booleans(), "shift": st.just(0)}))


@jax.jit
def partitions(a, b):
    return jax.vmap(lambda k: binary_search_partition(k, a, b))(jnp.arange(a.shape[0] + b.shape[0] + 1, dtype=jnp.int32))


def run_part(case):
    a = keys(case["a"], case["dt"], case["infs"][0], 0, case["special"])
    b = keys(case["b"], case["dt"], case["infs"][1], 0, case["special"])
    i, j = partitions(jnp.asarray(a), jnp.asarray(b))
    i, j = np.asarray(i), np.asarray(j)
    order = np.argsort(np.concatenate([a, b]), kind="stable")
    want = np.concatenate([[0], np.cumsum(order < len(a))])
    check((i == want).all(), "partition of a={} b={}: {} from a, expected {}", a, b, i, want)
    check((i + j == np.arange(len(order) + 1)).all(), "partition of a={} b={}: {} + {}", a, b, i, j)
    return len(np.intersect1d(a, b)) > 0, [case["dt"], "ties" if len(np.intersect1d(a, b)) else "no ties"]


# ---------------------------------------------------------------- refusal
def bad_strategy(shard):
    return st.fixed_dictionaries({"fn": st.sampled_from(["loop", "parallel"]), "ranks": st.sampled_from([[2, 1], [1, 2], [2, 2], [0, 1]]),
                                  "env": st.sampled_from([["0", None], ["-3", None], ["x", None], [None, "-1"], [None, "y"]]), "which": st.booleans()})


def run_bad(case):
    ranks = case["ranks"] if case["which"] else [1, 1]
    a, b = (jnp.zeros((2,) * r, dtype=jnp.float32) for r in ranks)
    if not case["which"]:
        if case["fn"] == "loop":
            return False, ["not applicable"]
        set_env(*case["env"])
    try:
        FNS[case["fn"]](a, b)
    except ValueError:
        return True, ["ranks" if case["which"] else "configuration"]
    finally:
        set_env(None, None)
    check(False, "{} of ranks {} with block/unroll {} accepted", case["fn"], ranks, case["env"] if not case["which"] else None)


SUBS = [Sub("merge", strategy, run, quick=3500, shards=6, rule="pairs of ascending key arrays (lengths 0-70, also unequal and empty; float16/bfloat16/float32/int32/uint32/uint8 and mixed; heavy ties, trailing infinities, "
            "extreme values) x loop, parallel (several block sizes and unroll limits, Pallas kernels interpreted) and sort routines; oracle: NumPy stable argsort of the concatenation; "
            "non-trivial: both arrays non-empty and some element of the second goes before one of the first"),
        Sub("values", kv_strategy, run_kv, quick=300, shards=3, env={"PBT_PLATFORM": "gpu"}, rule="the same merge carrying values (random layouts; padded, per-scalar and sharded packing), Pallas kernel interpreted; "
            "oracle: values in the order of the stable argsort; non-trivial: both arrays non-empty and some element of the second goes before one of the first"),
        Sub("partition", part_strategy, run_part, quick=400, shards=1, rule="merge-path partition of every diagonal; oracle: counts in the stable merge; non-trivial: keys in common"),
        Sub("refuse", bad_strategy, run_bad, quick=40, shards=1, rule="arrays that are not one-dimensional and unusable kernel settings are refused; non-trivial: every refused case")]


# ---------------------------------------------------------------- long arrays
LONG = [(300, 300), (1000, 257), (3, 700), (65, 66000), (2048, 2048), (40000, 30000)]


def long_strategy(shard):
    fns = [["loop", None, None], ["sort", None, None], ["parallel", None, None], ["parallel", "64", None], ["parallel", "256", "0"]]
    return st.sampled_from(LONG[shard % 2::2]).flatmap(lambda s: st.fixed_dictionaries({
        "size": st.just(list(s)), "fn": st.sampled_from(fns), "pair": st.sampled_from([["float32", "float32"], ["uint32", "uint32"], ["float16", "float16"]]), "seed": st.integers(0, 10 ** 6),
        "levels": st.sampled_from([3, 1000, 10 ** 6]), "infs": st.sampled_from([0, 5, 270]), "shift": st.sampled_from([0, -300, 300])}))


def run_long(case):
    rng = np.random.RandomState(case["seed"])
    (n, m), f = case["size"], case["pair"][0].startswith("float")
    hi = min(case["levels"], 1000) if case["pair"][0] == "float16" else case["levels"]
    return run({"fn": case["fn"], "pair": case["pair"], "a": rng.randint(0, hi, n), "b": rng.randint(0, hi, m), "infs": [case["infs"], case["infs"] // 3] if f else [0, 0], "shift": case["shift"], "special": False})


SUBS.append(Sub("long", long_strategy, run_long, quick=60, thorough=800, shards=2, rule="the same over arrays of up to 66000 keys"))
SUBS += x64(SUBS, merge=400)
