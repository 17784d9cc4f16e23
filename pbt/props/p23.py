"""P23: unique mask marks exactly one cheapest row per distinct state."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import big, layouts as L
from pbt.common import Sub, check
from xtructure import numpy as xnp

RULE = ("pool and random layouts (1 bit up to hundreds of words, bit-packed, nested) x batches of up to 40 rows drawn from few distinct rows that differ in as little as one or two bits "
        "(top bits, last bits, last element, all-ones and all-zero rows) x costs (none, float16/bfloat16/float32/int with ties and infinities) x fill masks x custom key functions x "
        "index (also of static size, padded or cut) and inverse outputs, eager or jitted; oracle: groups by row bytes; non-trivial: some group has several selectable rows and two groups differ in at most two bits")
WIDE = [
    {"fields": [["a", L.P("uint32", 6)]]},
    {"fields": [["a", L.P("uint32", 16)], ["b", L.P("uint32")]]},
    {"fields": [["a", L.P("uint8", 33)]]},
    {"fields": [["a", L.P("uint8", 100)], ["f", L.P("float32", 4)]]},
    {"fields": [["bits", L.P("uint8", 5, bits=3)]]},
    {"fields": [["bits", L.P("bool", 16, bits=1)]]},
    {"fields": [["bits", L.P("bool", 9, bits=1)], ["c", L.P("uint8", 3, bits=5)]]},
    {"fields": [["bits", L.P("uint8", 40, bits=4)], ["c", L.P("bool", 3, bits=1)]]},
    {"fields": [["on", L.P("bool", 1, bits=1)]]},
    {"fields": [["bits", L.P("uint16", 7, bits=11)], ["d", L.P("uint32", 5, bits=30)]]},
    {"fields": [["u", L.P("uint8")]]},
    {"fields": [["u", L.P("bool")]]},
    {"fields": [["a", L.P("uint32", 4)]]},
    {"fields": [["a", L.P("uint32", 5)]]},
    {"fields": [["i", L.P("int8", 3)], ["j", L.P("int16", 3)], ["k", L.P("int32", 4)]]},
    {"fields": [["n", {"nest": {"fields": [["p", L.P("uint32", 3)], ["q", L.P("uint8", 3)]]}, "sh": [3]}]]},
]
KEYFNS = ["none", "none", "none", "none", "field", "bytes", "floats"]


def strategy(shard):
    mine = [s for i, s in enumerate(WIDE + L.POOL) if i % 7 == shard % 7]  # few layouts and sizes per process: compiled code is reused
    spec = st.one_of(st.sampled_from(mine), st.sampled_from(mine), st.sampled_from(mine), L.spec_strategy(max_fields=3, depth=1)) if shard == 0 else st.sampled_from(mine)
    flips = st.lists(st.tuples(st.sampled_from(["top", "top", "last", "first", "any"]), st.integers(0, 10 ** 6)).map(list), min_size=0, max_size=3)
    near = st.tuples(st.one_of(st.integers(0, 3), st.integers(0, 10 ** 6)), st.integers(1, 2), st.sampled_from(["top", "top", "any"])).map(lambda t: [[t[2], t[0]], [t[2], t[0] + t[1]]])  # neighbouring elements
    flips = st.one_of(flips, flips, near)
    return st.fixed_dictionaries({"spec": spec, "base": st.sampled_from(["hash", "hash", "ones", "zeros"]), "distinct": st.lists(flips, min_size=1, max_size=7), "salt": st.integers(0, 10 ** 6),
                                  "rows": st.sampled_from([8, 8, 8, 24, 1, 3, 8, 8, 8, 24, 1, 3, 0]).flatmap(lambda n: st.lists(st.integers(0, 9), min_size=n, max_size=n)),
                                  "seed": st.integers(0, 10 ** 6), "cost": st.sampled_from(["none", "none", "float32", "float32", "float16", "bfloat16", "int32", "uint8"] + (["float64", "int64"] if L.X64 else [])),
                                  "levels": st.integers(1, 5), "inf": st.booleans(), "filled": st.sampled_from(["none", "none", "some", "some", "few", "no row"]),
                                  "keyfn": st.sampled_from(KEYFNS), "size": st.sampled_from([None, None, None, "n", "n", "more", "few", "one"]), "pad": st.sampled_from([None, 77, -1, 0]), "index": st.booleans(), "inverse": st.booleans(), "len": st.booleans(), "jit": st.integers(0, 9).map(lambda v: v == 9)})


def bit_view(spec, arrs):
    """[(path, flat uint view, usable bits)] of one row's integer/boolean/packed/float leaves."""
    out = []
    for p, f, _ in L.leaves(spec):
        a = arrs[p]
        w = 8 if "packed" in f else 1 if a.dtype == bool else f.get("bits") or 8 * a.dtype.itemsize
        out.append((p, a, w))
    return out


def make_row(spec, case, flips):
    """One row: the base content with single bits flipped; floats stay finite and never become -0.0."""
    base = case["base"]
    arrs = L.arrays(spec, (), case["salt"])
    for p, f, _ in L.leaves(spec):
        a = np.array(arrs[p])
        if base != "hash" and a.dtype.kind in "uib":
            w = f.get("bits") if "packed" not in f else None
            a[...] = 0 if base == "zeros" else (True if a.dtype == bool else ((1 << w) - 1 if w else ((1 << 8 * a.dtype.itemsize) - 1 if a.dtype.kind == "u" else -1)))
        arrs[p] = a
    views = bit_view(spec, arrs)
    cells = [(p, i, w) for p, a, w in views for i in range(a.size)]
    for where, k in flips if cells else []:
        p, i, w = cells[-1] if where == "last" else cells[0] if where == "first" else cells[k % len(cells)]
        flat = arrs[p].reshape(-1)
        bit = w - 1 if where == "top" else k // 7 % w
        if flat.dtype == bool:
            flat[i] = not flat[i]
        elif flat.dtype.kind in "ui":
            flat.view(f"uint{8 * flat.dtype.itemsize}")[i] ^= np.array(1 << bit, f"uint{8 * flat.dtype.itemsize}")
        else:
            flat[i] = np.asarray(float(flat[i]) + 1 + k % 3).astype(flat.dtype)
        arrs[p] = flat.reshape(arrs[p].shape)
    return arrs


def run(case):
    spec = case["spec"]
    protos = [make_row(spec, case, fl) for fl in case["distinct"]]
    pick = [r % len(protos) for r in case["rows"]]
    n = len(pick)
    arrs = {p: np.stack([protos[r][p] for r in pick]) if pick else np.zeros((0,) + a.shape, a.dtype) for p, a in protos[0].items()}
    x = L.from_np(spec, arrs)
    rng = np.random.RandomState(case["seed"])
    cost = None
    if case["cost"] != "none":
        cost = rng.randint(0, case["levels"], n).astype(L.npdt(case["cost"]))
        if case["cost"].endswith("t32") or "float" in case["cost"]:
            cost = cost - np.asarray(1, cost.dtype)
        if "float" in case["cost"] and case["inf"]:
            cost = np.where(rng.rand(n) < 0.25, np.asarray(np.inf, cost.dtype), cost)
            cost = np.where(rng.rand(n) < 0.1, np.asarray(-np.inf, cost.dtype), cost)
        elif case["inf"] and case["cost"] != "none" and "float" not in case["cost"]:
            cost = np.where(rng.rand(n) < 0.25, np.iinfo(cost.dtype).max, cost).astype(cost.dtype)
    filled = None
    if case["filled"] != "none":
        filled = rng.rand(n) < {"some": 0.7, "few": 0.25, "no row": 0.0}[case["filled"]]
    kf, keys = None, [L.row_key(arrs, r) for r in range(n)]
    first = L.leaves(spec)[0][0]
    if case["keyfn"] == "field":
        kf = lambda v: L.get(v, first)
        keys = [arrs[first][r].tobytes() for r in range(n)]
    elif case["keyfn"] == "bytes":
        kf = lambda v: v.bytes
    elif case["keyfn"] == "floats":  # quarters: a cast to integers would merge them
        kf = lambda v: L.get(v, first).astype(jnp.float32).reshape(-1) % 64 / 4 - 3
        keys = [(np.asarray(jnp.asarray(arrs[first][r]).astype(jnp.float32)).reshape(-1) % 64 / 4 - 3).tobytes() for r in range(n)]
    ok = np.ones(n, bool) if filled is None else filled.copy()
    if cost is not None and "float" in case["cost"]:
        ok &= cost.astype(np.float64) < np.inf
    best = {}
    for r in range(n):
        if ok[r] and (keys[r] not in best or (cost is not None and cost[r] < cost[best[keys[r]]])):
            best[keys[r]] = r
    want = np.zeros(n, bool)
    want[list(best.values())] = True
    kw = {k: True for k in ("return_index", "return_inverse") if case[k[7:]]}
    if case["len"]:
        kw["batch_len"] = n
    size = None
    if case["index"] and case.get("size"):
        size = {"n": n, "more": n + 3, "few": max(1, n // 3), "one": 1}[case["size"]]
        kw["size"] = size
        if case["pad"] is not None:
            kw["fill_value"] = case["pad"]

    if size is None:
        um = xnp.unique_mask
    else:  # the public front does not pass the size on
        from xtructure.core.xtructure_numpy.dataclass_ops import unique_mask as um

    def f(v, c, m):
        return um(v, key=c, filled=m, key_fn=kf, **kw)
    args = (x, None if cost is None else jnp.asarray(cost), None if filled is None else jnp.asarray(filled))
    out = jax.jit(f)(*args) if case["jit"] else f(*args)
    outs = out if isinstance(out, tuple) else (out,)
    check(isinstance(out, tuple) == (case["index"] or case["inverse"]) and len(outs) == 1 + case["index"] + case["inverse"], "unique_mask returned {} results", len(outs))
    mask = np.asarray(outs[0])
    check(mask.dtype == bool and mask.shape == (n,), "mask is {} {}", mask.dtype, mask.shape)
    if not (mask == want).all():
        r = int(np.argwhere(mask != want)[0][0])
        same = [i for i in range(n) if keys[i] == keys[r]]
        check(False, "row {} {} selected: its group is {}, selectable {}, costs {}, selected {}", r, "wrongly" if mask[r] else "not", same, [i for i in same if ok[i]],
              None if cost is None else [float(cost[i]) for i in same], [i for i in same if mask[i]])
    if case["index"]:
        idx = np.asarray(outs[1])
        if size is not None:
            check(idx.shape == (size,), "index of size {} has shape {}", size, idx.shape)
            if case["pad"] is not None:
                check((idx[len(best):] == case["pad"]).all(), "index of size {} for {} groups is {}, fill value {}", size, len(best), idx.tolist(), case["pad"])
            idx = idx[:len(best)]
        elif case["jit"]:
            check(idx.shape == (n,) and (idx[len(best):] == n).all(), "jitted index is {} for {} groups of {} rows", idx.tolist(), len(best), n)
            idx = idx[:len(best)]
        reps = sorted(best.values())
        check(sorted(idx.tolist()) == reps if size is None or size >= len(reps) else len(set(idx.tolist())) == size and set(idx.tolist()) <= set(reps), "index {} does not list the selected rows {}", idx.tolist(), reps)
        if case["inverse"] and len(idx) == len(best):
            inv = np.asarray(outs[2])
            for r in range(n):
                if ok[r]:
                    check(0 <= inv[r] < len(idx) and idx[inv[r]] == best[keys[r]], "inverse of row {} leads to row {}, its representative is {}", r,
                          idx[inv[r]] if 0 <= inv[r] < len(idx) else inv[r], best[keys[r]])
    elif case["inverse"]:
        inv = np.asarray(outs[1])
        groups = {}
        for r in range(n):
            if ok[r]:
                check(groups.setdefault(int(inv[r]), keys[r]) == keys[r], "inverse {} joins different states", int(inv[r]))
        check(len(groups) == len(best) and set(groups) == set(range(len(best))), "inverse ids {} for {} groups", sorted(groups), len(best))
    d = L.same(arrs, L.to_np(spec, x))
    check(d is None, "unique_mask changed its input: {}", d)
    sizes = {}
    for r in range(n):
        if ok[r]:
            sizes[keys[r]] = sizes.get(keys[r], 0) + 1
    near = len({len(fl) for fl in case["distinct"]} & {0, 1, 2}) > 0 and len(best) > 1
    return max(sizes.values(), default=0) > 1 and near, [case["keyfn"], case["cost"], "filled" if filled is not None else "all filled", "jit" if case["jit"] else "eager"]


SUBS = [Sub("unique", strategy, run, quick=1600, shards=7, rule=RULE),
        Sub("unique-x64", strategy, run, quick=300, shards=1, env={"JAX_ENABLE_X64": "1"}, rule="the same with 64-bit mode enabled (another signature)")]
SUBS.append(Sub("large", big.unique_strategy, big.run_unique, quick=60, thorough=1000, shards=2, rule=big.UNIQ_RULE))
