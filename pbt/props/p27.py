"""P27: every combination of tuning switches reports the same results as the default configuration.

Each worker runs under one combination of switches and executes every generated history itself; a partner process in the default
configuration executes the same history; the reported results must be equal.  Accelerator paths run in the Pallas interpreter.
"""
import functools
import json
import os
import subprocess
import sys

from pbt import interp  # noqa: F401  (before xtructure)
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import big, heaps, partner, tables
from pbt import layouts as L
from pbt.common import HarnessError, Sub, check
from xtructure import BGPQ, HashIdx, HashTable

AGG = [
    {"fields": [["a", L.P("uint8", 5, bits=3)], ["on", L.P("bool", 9, bits=1)]], "opts": {"aggregate_bitpack": True}},
    {"fields": [["w", L.P("uint32", 2, bits=17)], ["n", {"nest": {"fields": [["c", L.P("uint16", bits=11)]]}, "sh": []}]], "opts": {"aggregate_bitpack": True}},
]
# (layout: index into POOL or "aggN", capacity, bucket size, seed, batch length, hash mode)
TABLES = [(0, 64, 8, 1, 6, "std"), ("agg0", 64, 4, 5, 7, "std"), (2, 64, 4, 123, 7, "low2"), (6, 48, 4, 9, 8, "fp4"), ("agg1", 48, 2, 3, 6, "std"),
          (10, 48, 4, 3, 16, "fp4"), (1, 64, 2, 7, 5, "const"), (4, 50, 3, 42, 9, "prim"), (5, 100, 8, 0, 12, "step"), (9, 64, 16, 77, 6, "std"),
          (3, 64, 1, 5, 8, "low2"), (7, 64, 32, 11, 24, "const")]
CAP_CODES = 40


def layout(li):
    return AGG[int(li[3:])] if isinstance(li, str) else L.POOL[li]


@functools.lru_cache(None)
def table_setup(ci):
    li, cap, bucket, seed, blen, mode = TABLES[ci]
    if isinstance(li, str):
        spec = layout(li)
        rows = L.rows_arrays(spec, np.asarray(L.distinct_codes(spec, CAP_CODES)))
        return spec, L.build(spec), rows
    return L.POOL[li], tables.hashed_class(li, mode), tables.pool_rows(li)


def groups(handles, keep):
    """Handles are free to differ; which rows share one is not."""
    seen = {}
    return [seen.setdefault(int(h), len(seen)) if k else -1 for h, k in zip(handles, keep)]


def run_table(case):
    li, cap, bucket, seed, blen, mode = TABLES[case["cfg"]]
    spec, cls, rows = table_setup(case["cfg"])
    t = HashTable.build(cls, seed, cap, bucket_size=bucket)
    out = []

    def inst(codes):
        return L.from_np(spec, {p: a[np.asarray(codes) % CAP_CODES] for p, a in rows.items()}, cls=cls)
    for op in case["ops"]:
        codes = [c % CAP_CODES for c in op["codes"]]
        codes = (codes * blen)[:blen]
        fl = [(op["mask"] >> i & 1) == 1 for i in range(blen)] if op["mask"] else [True] * blen
        if op["op"] == "insert":
            x = inst([codes[0]])[0]
            t, ins, idx = t.insert(x)
            back = L.same(L.to_np(spec, x), L.to_np(spec, t[idx]))
            out.append(["insert", bool(ins), int(t.size), back])
        elif op["op"] == "batch":
            kw = {}
            if op["mask"]:
                kw["filled"] = jnp.asarray(fl)
            if op["key"] is not None:
                kw["unique_key"] = jnp.asarray([float((op["key"] * (i + 3)) % 7) for i in range(blen)], dtype=jnp.float32)
            x = inst(codes)
            t, ins, uniq, idx = t.parallel_insert(x, **kw)
            back = t[idx]
            ok = [L.row_key(L.to_np(spec, x), i) == L.row_key(L.to_np(spec, back), i) if fl[i] else None for i in range(blen)]
            out.append(["batch", np.asarray(ins).tolist(), np.asarray(uniq).tolist(), groups(np.asarray(idx.index), fl), ok, int(t.size)])
        else:
            x = inst(codes)
            idx, found = t.lookup_parallel(x, jnp.asarray(fl)) if op["mask"] else t.lookup_parallel(x)
            found = np.asarray(found)
            back = L.to_np(spec, t[idx])
            ok = [L.row_key(L.to_np(spec, x), i) == L.row_key(back, i) if found[i] else None for i in range(blen)]
            one = t.lookup(inst([codes[0]])[0])
            out.append(["lookup", found.tolist(), groups(np.asarray(idx.index), found), ok, bool(one[1])])
    allc = list(range(CAP_CODES))
    for k in range(0, CAP_CODES, blen):
        codes = (allc[k:k + blen] + allc)[:blen]
        _, found = t.lookup_parallel(inst(codes))
        out.append(["members", np.asarray(found).tolist()])
    return out


def table_cases(cfgs):
    op = st.fixed_dictionaries({"op": st.sampled_from(["batch", "batch", "batch", "lookup", "insert"]),
                                "codes": st.lists(st.integers(0, 60), min_size=1, max_size=16), "mask": st.one_of(st.just(0), st.integers(1, 2 ** 16 - 1)),
                                "key": st.one_of(st.none(), st.integers(0, 6))})
    return st.fixed_dictionaries({"kind": st.just("table"), "cfg": st.sampled_from(cfgs), "ops": st.lists(op, min_size=2, max_size=8)})


# ---------------------------------------------------------------- priority queue
def run_heap(case):
    li, total, batch, kdt = heaps.CONFIGS[case["cfg"]]
    spec, cls = L.POOL[li], L.build(L.POOL[li])
    h = BGPQ.build(total, batch, cls, L.DT[kdt])
    cap = -(-total // batch) * batch
    inv = heaps.table(li)[1]
    live, tag, out, pairs = 0, 0, [], []

    def delete():
        nonlocal h, live
        h, k, v = h.delete_mins()
        k = np.asarray(k).astype(np.float64)
        got = L.to_np(spec, v)
        fin = [i for i in range(batch) if np.isfinite(k[i])]
        live -= len(fin)
        pairs.extend([float(k[i]), inv.get(L.row_key(got, i), -1)] for i in fin)
        out.append(["delete", [str(x) for x in k], int(h.size)])
    for op in case["ops"]:
        if op[0] == "del":
            delete()
            continue
        codes = op[1][:batch][:max(0, cap - live)]
        keys = np.asarray([heaps.keyval(c, kdt) for c in codes], dtype=L.npdt(kdt))
        tags = list(range(tag, tag + len(codes)))
        tag += len(codes)
        bk, bv = BGPQ.make_batched(jnp.asarray(keys), heaps.rows_instance(li, tags), batch)
        h = h.insert(bk, bv)
        live += len(codes)
        out.append(["insert", int(h.size)])
    for _ in range(cap // batch + 1):
        delete()
    return out + [["pairs", sorted(pairs)]]


def heap_cases(cfgs):
    key = st.one_of(st.integers(-6, 6), st.integers(-120, 120), st.sampled_from([1000, 1001]))  # no denormals: compiled and interpreted kernels may flush them

    def ops(c):
        b = heaps.CONFIGS[c][2]
        ins = st.one_of(st.lists(key, min_size=b, max_size=b), st.lists(key, min_size=b, max_size=b), st.lists(key, min_size=0, max_size=b))
        op = st.one_of(st.tuples(st.just("ins"), ins).map(list), st.tuples(st.just("ins"), ins).map(list), st.just(["del"]))
        return st.fixed_dictionaries({"kind": st.just("heap"), "cfg": st.just(c), "ops": st.lists(op, min_size=3, max_size=14)})
    return st.sampled_from(cfgs).flatmap(ops)


# ---------------------------------------------------------------- hashing
def run_hash(case):
    spec = case["spec"]
    cls = L.build(spec)
    x = L.instance(spec, (case["n"],), case["salt"])
    out = []
    agg = bool(spec.get("opts"))
    rows = [x[i] for i in range(case["n"])]
    for seed in case["seeds"]:
        h = [int(r.hash(seed)) for r in rows]
        pair = [[int(v) for v in r.hash_pair(seed)] for r in rows]
        (both, words) = rows[0].hash_with_uint32ed(seed)
        if agg:  # the packed mode hashes another encoding: only which rows agree is reported
            out.append([[a == b for b in h] for a in h])
            out.append([[a == b for b in pair] for a in pair])
            out.append(int(both) == h[0])
        else:
            vh = np.asarray(jax.vmap(lambda r: r.hash(seed))(x)).tolist()
            out += [h, pair, vh, int(both), np.asarray(words).tolist()[:50]]
    return out


def hash_cases(big):
    shapes = [[], [1], [3], [7], [2, 2]] + ([[500], [40, 60], [9000]] if big else [])
    spec = L.spec_strategy(max_fields=3, shapes=shapes, depth=1)
    agg = st.sampled_from(AGG)
    return st.fixed_dictionaries({"kind": st.just("hash"), "spec": st.one_of(spec, spec, agg), "n": st.sampled_from([1, 3]), "salt": st.integers(0, 10 ** 6),
                                  "seeds": st.lists(st.integers(0, 2 ** 31 - 1), min_size=1, max_size=2)})


# ---------------------------------------------------------------- bit packing
def run_pack(case):
    from pbt.props.p13 import content
    spec = dict(case["spec"], opts={"aggregate_bitpack": True})
    batch = tuple(case["batch"])
    x = L.from_np(spec, content(spec, batch, case["salt"], case["ones"]))
    p = x.packed
    back = p.unpacked
    out = [np.asarray(p.words).tolist(), np.asarray(p.tail).tolist(), str(p.shape)]
    for path, _, _ in L.leaves(spec):
        a = np.asarray(L.get(back, path))
        out.append([".".join(path), str(a.dtype), a.tolist()])
    j = jax.jit(lambda y: y.packed)(x)
    out.append([np.asarray(j.words).tolist(), np.asarray(j.tail).tolist()])
    return out


def pack_cases():
    from pbt.props.p13 import spec_strategy
    return st.fixed_dictionaries({"kind": st.just("pack"), "spec": spec_strategy(1), "batch": st.sampled_from([[], [1], [3], [2, 2], [5]]),
                                  "salt": st.integers(0, 10 ** 6), "ones": st.sampled_from([0, 0, 1, 2])})


# ---------------------------------------------------------------- larger instances, judged by their own oracle
BIG_HEAPS = [(1, 900, 300, "float32"), (3, 1300, 260, "float32"), (12, 600, 200, "float32"), (9, 640, 128, "float16")]
BIG_TABLES = [(1, 900, 1200, 8, 300, "std"), (3, 600, 900, 4, 150, "std"), (6, 500, 700, 40, 257, "low2"), (9, 400, 500, 32, 260, "std")]


def big_cases(kind, i):
    configs, make = (BIG_HEAPS, big.heap_strategy) if kind == "bigheap" else (BIG_TABLES, big.table_strategy)
    return make(configs)(i).map(lambda c: {"kind": kind, **c})


def run_big(f):
    return lambda case: [sorted(f(case)[1])]


KINDS = {"table": run_table, "heap": run_heap, "hash": run_hash, "pack": run_pack, "bigheap": run_big(big.run_heap), "bigtable": run_big(big.run_table)}


def outcome(case):
    try:
        return ["ok", json.loads(json.dumps(KINDS[case["kind"]](case)))]
    except Exception as e:
        return ["raised", type(e).__name__, str(e)[:300]]


def run(case):
    mine, other = outcome(case), partner.ask(case)
    if other[0] == "raised":  # fails without any switch: some other property's business
        return False, ["default configuration raises"]
    check(mine[0] == "ok", "raised {} although the default configuration does not", mine[1:])
    a, b = mine[1], other[1]
    for i, (x, y) in enumerate(zip(a, b)):
        check(x == y, "result {} of the {} history is {}, in the default configuration {}", i, case["kind"], str(x)[:400], str(y)[:400])
    check(len(a) == len(b), "{} results instead of {}", len(a), len(b))
    nontrivial = case["kind"] in ("hash", "pack") or len(case["ops"]) >= 3
    return nontrivial, [case["kind"]]


E = {}  # name -> (switches, kinds)


def env(name, kinds, **kw):
    E[name] = (kinds, {k if k in ("PBT_PLATFORM", "JAX_ENABLE_X64") else "XTRUCTURE_" + k: v for k, v in kw.items()})


env("exact-concat", "table heap pack", HASHTABLE_DEDUPE_MODE="exact", HASHTABLE_SORT_BACKEND="lax_stable", BGPQ_VALUE_REORDER="concat",
    AGG_BITPACK_PACK_BACKEND="pallas", AGG_BITPACK_PACK_WORD_TILE="1")
env("unstable", "table heap hash", HASHTABLE_SORT_BACKEND="lax_unstable", BGPQ_SORT_STABLE="0", HASH_STREAM="on", HASH_AGG_MODE="packed")
env("exact-unstable", "table heap hash", HASHTABLE_DEDUPE_MODE="exact", HASHTABLE_SORT_BACKEND="lax_unstable", BGPQ_MERGE_BACKEND="parallel",
    BGPQ_MERGE_BLOCK_SIZE="2", HASH_AGG_MODE="auto", HASH_STREAM="auto", HASH_STREAM_THRESHOLD_U32="1")
env("parallel", "heap pack hash", BGPQ_MERGE_BACKEND="pallas", BGPQ_VALUE_REORDER="concat_gather", AGG_BITPACK_PACK_BACKEND="pallas",
    AGG_BITPACK_PACK_WORD_TILE="3", HASH_STREAM="off", HASHTABLE_SORT_BACKEND="lax_stable")
env("tpu", "table heap hash pack", PBT_PLATFORM="tpu", HASH_AGG_MODE="auto")
env("gpu", "table heap", PBT_PLATFORM="gpu")
env("gpu-kv", "table heap", PBT_PLATFORM="gpu", HASHTABLE_TRITON_INSERT="0", BGPQ_MERGE_VALUE_BACKEND="kv", BGPQ_MERGE_VALUE_PACKING="pad")
env("gpu-kv-scalar", "heap pack", PBT_PLATFORM="gpu", BGPQ_MERGE_VALUE_BACKEND_SORTSPLIT="parallel", BGPQ_MERGE_VALUE_PACKING="scalar",
    AGG_BITPACK_PACK_BACKEND="pallas", AGG_BITPACK_PACK_WORD_TILE="7")
env("gpu-kv-shard", "heap", PBT_PLATFORM="gpu", BGPQ_MERGE_VALUE_BACKEND_BUFFER="on", BGPQ_MERGE_VALUE_BACKEND="auto", BGPQ_MERGE_VALUE_AUTO_MIN_BATCH="3",
    BGPQ_MERGE_VALUE_PACKING="shard", BGPQ_SORT_STABLE="off")
env("tpu-probes", "table", PBT_PLATFORM="tpu", HASHTABLE_PALLAS_INSERT="0", HASHTABLE_DEDUPE_MODE="exact", HASH_AGG_MODE="packed")

env("spelling", "table heap hash pack", HASHTABLE_DEDUPE_MODE=" FAST ", HASHTABLE_SORT_BACKEND="LAX_Stable", BGPQ_VALUE_REORDER=" Direct", BGPQ_SORT_STABLE="FALSE",
    BGPQ_MERGE_BACKEND="XLA", BGPQ_MERGE_VALUE_BACKEND="None", HASH_AGG_MODE=" Raw", HASH_STREAM="ON ", HASH_STREAM_THRESHOLD_U32="0",
    AGG_BITPACK_PACK_BACKEND="OFF", AGG_BITPACK_PACK_WORD_TILE=" auto ")
env("gpu-wide", "table heap pack", PBT_PLATFORM="gpu", JAX_ENABLE_X64="1", BGPQ_MERGE_VALUE_BACKEND="TRUE", BGPQ_MERGE_VALUE_SCALAR_MAX="1",
    BGPQ_MERGE_UNROLL_MAX="0", BGPQ_MERGE_NUM_WARPS="AUTO", HASHTABLE_TRITON_INSERT="YES", HASHTABLE_TRITON_INSERT_MAX_PROBE_BUCKETS="none")
env("tpu-wide", "table heap hash pack", PBT_PLATFORM="tpu", JAX_ENABLE_X64="1", HASHTABLE_PALLAS_INSERT="On", HASHTABLE_PALLAS_INSERT_MAX_PROBE_BUCKETS="AUTO")

RULE = ("the same history in this configuration and in the default one, reported results compared (masks, sizes, retrieved states, deleted keys, "
        "multiset of key-value pairs, hashes, packed words, unpacked values); non-trivial: a hash or packing case, or a history of three or more operations")


def strategy_for(name, i):
    kinds = E[name][0].split()

    def strategy(shard):
        k = i * 3 + shard * 2
        tc = [(k + j * 5) % len(TABLES) for j in range(3)]
        if "agg" in json.dumps(E[name][1]).lower() and "table" in kinds:
            tc[0] = 1
        if E[name][1].get("PBT_PLATFORM"):  # many states in one bucket: occupancy words are used up
            tc[-1] = 11
        hc = [(k + j * 5) % len(heaps.CONFIGS) for j in range(4)]
        parts = {"table": lambda: table_cases(tc), "heap": lambda: heap_cases(hc), "hash": lambda: hash_cases(True), "pack": pack_cases}
        return st.one_of(*[parts[k]() for k in kinds])
    return strategy


def large_for(name, i):
    kinds = ["big" + k for k in E[name][0].split() if k in ("table", "heap")]
    return lambda shard: st.one_of(*[big_cases(k, i + j) for j, k in enumerate(kinds)])


SUBS = [Sub(n, strategy_for(n, i), run, quick=28, thorough=1500, shards=1, env=E[n][1], rule=RULE if i == 0 else "same") for i, n in enumerate(E)]
SUBS += [Sub(n + "-large", large_for(n, i), run, quick=6, thorough=200, shards=1, env=E[n][1], rule=big.TABLE_RULE + "; " + big.HEAP_RULE if i == 0 else "same")
         for i, n in enumerate(E)]

# ---------------------------------------------------------------- values a switch does not know
# switch -> (platform on which it is read, accepted words or kind of number)
ONOFF = ["1", "true", "yes", "y", "on", "0", "false", "no", "n", "off"]
KV = ["off", "0", "false", "none", "on", "true", "parallel", "pallas", "kv", "kv_parallel", "auto", "kv_auto"]
KNOWN = {
    "HASHTABLE_DEDUPE_MODE": ("", ["safe", "exact", "approx", "fast"]),
    "HASHTABLE_SORT_BACKEND": ("", ["stable_argsort", "lax_unstable", "lax_stable"]),
    "BGPQ_MERGE_BACKEND": ("", ["sort", "xla", "parallel", "pallas"]),
    "HASH_AGG_MODE": ("", ["raw", "packed", "auto"]),
    "HASH_STREAM": ("", ["off", "on", "auto"]),
    "HASH_STREAM_THRESHOLD_U32": ("", "count"),
    "AGG_BITPACK_PACK_BACKEND": ("", ["auto", "pallas", "xla", "off"]),
    "AGG_BITPACK_PACK_WORD_TILE": ("pallas", "positive"),
    "BGPQ_VALUE_REORDER": ("", ["gather", "direct", "concat", "concat_gather"]),
    "BGPQ_MERGE_VALUE_BACKEND": ("", KV),
    "BGPQ_MERGE_VALUE_BACKEND_BUFFER": ("", KV),
    "BGPQ_MERGE_VALUE_BACKEND_SORTSPLIT": ("", KV),
    "BGPQ_MERGE_VALUE_AUTO_MIN_BATCH": ("auto", "integer"),
    "BGPQ_MERGE_BLOCK_SIZE": ("parallel", "positive"),
    "BGPQ_MERGE_UNROLL_MAX": ("parallel", "count"),
    "BGPQ_MERGE_NUM_WARPS": ("gpu", "positive"),
    "BGPQ_MERGE_NUM_STAGES": ("gpu", "positive"),
    "BGPQ_MERGE_VALUE_PACKING": ("gpukv", ["auto", "pad", "scalar", "shard"]),
    "BGPQ_MERGE_VALUE_SCALAR_MAX": ("gpukv", "positive"),
    "HASHTABLE_TRITON_INSERT": ("gpu", ONOFF),
    "HASHTABLE_TRITON_INSERT_MAX_PROBE_BUCKETS": ("gpu", "positive"),
    "HASHTABLE_TRITON_INSERT_NUM_WARPS": ("gpu", "positive"),
    "HASHTABLE_TRITON_INSERT_NUM_STAGES": ("gpu", "positive"),
    "HASHTABLE_PALLAS_INSERT": ("tpu", ONOFF),
    "HASHTABLE_PALLAS_INSERT_MAX_PROBE_BUCKETS": ("tpu", "positive"),
}
CONTEXT = {"": {}, "pallas": {"XTRUCTURE_AGG_BITPACK_PACK_BACKEND": "pallas"}, "auto": {"XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND": "auto"},
           "parallel": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "parallel"}, "gpu": {"PBT_PLATFORM": "gpu"}, "tpu": {"PBT_PLATFORM": "tpu"},
           "gpukv": {"PBT_PLATFORM": "gpu", "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND": "on"}}
OK_NUMBER, BAD_NUMBER = {"positive": ["1", "4"], "count": ["0", "3"], "integer": ["0", "4"]}, ["x", "1.5", "four", "0x10", "2;"]


def known(kind, value):
    v = value.strip().lower()
    if isinstance(kind, list):
        return v in kind
    try:
        n = int(v)
    except ValueError:
        return v in ("", "none", "auto")
    return kind == "integer" or n > 0 or (kind == "count" and n == 0)


def switch_cases(shard):
    def values(name):
        kind = KNOWN[name][1]
        if isinstance(kind, list):
            word = st.sampled_from(kind)
            wrong = st.one_of(word.flatmap(lambda w: st.sampled_from([w + "x", w[:-1] + "_", w + w[-1:], w + "," + w, "-" + w])), st.sampled_from(["2", "maybe", "default", "-1", "enabled"]))
            wrong = wrong.filter(lambda v: not known(kind, v))
        else:
            word = st.sampled_from(OK_NUMBER[kind])
            wrong = st.sampled_from(BAD_NUMBER + {"positive": ["0", "-1", "-8"], "count": ["-1", "-20"], "integer": []}[kind])
        return st.one_of(wrong, wrong, wrong, word).map(lambda v: {"kind": "switch", "switch": name, "value": v})
    return st.sampled_from(sorted(KNOWN)).flatmap(values)


def probe():
    """Touch everything that reads a switch; prints 'fine' or the name of what was raised."""
    try:
        from xtructure import FieldDescriptor, xtructure_dataclass

        @xtructure_dataclass(aggregate_bitpack=True)
        class Probe:
            a: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), bits=3)
            b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2,), bits=7)
        x = Probe.random((4,), key=jax.random.PRNGKey(0))
        jax.block_until_ready(x.packed.words)
        x[0].hash(3)
        t = HashTable.build(Probe, 1, 16, bucket_size=4)
        t.parallel_insert(x)
        h = BGPQ.build(8, 4, Probe, jnp.float32)
        for i in range(2):
            h = h.insert(jnp.arange(4, dtype=jnp.float32) + i, x)
        h.delete_mins()
        print("fine")
    except ValueError as e:
        print("ValueError", e)
    except Exception as e:
        print(type(e).__name__, e)


PROBE = """
import json, os, sys
sys.path[:0] = json.loads(os.environ["PBT_PATH"])
try:
    from pbt.props import p27
except ValueError as e:
    print("ValueError", e)
else:
    p27.probe()
"""


def run_switch(case):
    platform, kind = KNOWN[case["switch"]]
    env = {k: v for k, v in os.environ.items() if not k.startswith("XTRUCTURE_") and k != "PBT_PLATFORM"}
    env.update(CONTEXT[platform])
    env["XTRUCTURE_" + case["switch"]] = case["value"]
    env["PBT_PATH"] = json.dumps([p for p in sys.path if p])
    done = subprocess.run([sys.executable, "-c", PROBE], env=env, capture_output=True, text=True)
    lines = [l for l in done.stdout.splitlines() if l.split(" ")[0] in ("fine",) or l.split(" ")[0].endswith(("Error", "Exception"))]
    if not lines:
        raise HarnessError(f"probe of {case}: {done.returncode} {done.stderr[-1500:]}")
    ok = known(kind, case["value"])
    if ok:
        check(lines[-1] == "fine", "{}={!r} is a documented value, yet: {}", case["switch"], case["value"], lines[-1][:300])
    else:
        check(lines[-1].startswith("ValueError"), "{}={!r} is not a value of that switch, yet it is not refused by a ValueError: {}", case["switch"], case["value"], lines[-1][:300])
    return not ok, [case["switch"], "known" if ok else "unknown"]


SUBS.append(Sub("unknown-values", switch_cases, run_switch, quick=24, thorough=400, shards=2,
                rule="a process with one switch set to a generated value touches every component: a value the switch does not know is refused by a ValueError, a value it knows is not; "
                     "non-trivial: an unknown value"))
