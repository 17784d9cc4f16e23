"""P05: hashing is a pure function of content and seed, the same on every route; the byte and word views are injective."""
import functools
import os
import random

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, tier, x64
from xtructure import numpy as xnp

RULE = ("pool of random layouts (10 dtypes, ranks 0-3, zero-length fields, nesting, nested arrays, packed fields, bit widths); per case a base state, "
        "single-bit flips over all fields, element swaps, leaf swaps and unrelated states, several seeds, classes built under every hash mode; "
        "non-trivial: at least two leaves or a leaf whose bytes do not fill 32-bit words")
NROWS = 128
MODES = {"off": {"XTRUCTURE_HASH_STREAM": "off"}, "on": {"XTRUCTURE_HASH_STREAM": "on"}, "auto": {},
         "auto3": {"XTRUCTURE_HASH_STREAM": "auto", "XTRUCTURE_HASH_STREAM_THRESHOLD_U32": "3"},
         "packed": {"XTRUCTURE_HASH_AGG_MODE": "packed"}, "packed-on": {"XTRUCTURE_HASH_AGG_MODE": "packed", "XTRUCTURE_HASH_STREAM": "on"}}
SHAPES = [[], [], [], [1], [2], [3], [5], [1, 2], [2, 2], [3, 2], [2, 1, 2], [7], [0]]


def pool_spec(k, agg):
    """The k-th layout: size grows with k; `agg`: every leaf declares bits (aggregate packing applies)."""
    r = random.Random(f"{k}{agg}")
    if k == 3 and not agg:
        return {"fields": [["none", L.P("uint8", 0)], ["nil", L.P("float32", 2, 0)]]}

    def field(d):
        x = r.random()
        if d and x < 0.25:
            return {"nest": spec(d - 1), "sh": [] if agg else r.choice([[], [], [2]])}
        if not agg and x < 0.33:
            return {"packed": r.choice([1, 3, 5, 12]), "sh": r.choice([[5], [2, 3], [9]])}
        dt = r.choice(["bool", "uint8", "uint16", "uint32", "int32"] if agg else L.PRIM)
        f = {"dt": dt, "sh": r.choice(SHAPES[:-1] if agg else SHAPES)}
        if agg:
            f["bits"] = r.randint(1, 31 if dt == "int32" else L.UINT[dt])
        return f

    def spec(d):
        return {"fields": [[L.NAMES[i], field(d)] for i in range(r.randint(1, min(4, 1 + k // 4)))]}
    return spec(min(2, k // 6))


@functools.lru_cache(None)
def classes(k, agg):
    """{mode: class} for layout k."""
    spec = pool_spec(k, agg)
    out = {}
    for mode in (["auto", "packed", "packed-on"] if agg else ["off", "on", "auto", "auto3"]):
        old = dict(os.environ)
        os.environ.update(MODES[mode])
        try:
            out[mode] = L.build(spec, {"__key__": "hash-" + mode})
        finally:
            os.environ.clear()
            os.environ.update(old)
    return out


ROUTES = ("hash", "hash_pair", "hash_with_uint32ed", "hash_pair_with_uint32ed", "uint32ed", "bytes")


def all_routes(s, seed):
    h1, w1 = s.hash_with_uint32ed(seed)
    p1, w2 = s.hash_pair_with_uint32ed(seed)
    return dict(hash=s.hash(seed), pair=s.hash_pair(seed), h1=h1, w1=w1, p1=p1, w2=w2, w=s.uint32ed, b=s.bytes)


@functools.lru_cache(None)
def batch_fn(k, agg, mode):
    return jax.jit(jax.vmap(all_routes, in_axes=(0, None)))


@functools.lru_cache(None)
def batch2_fn(k, agg, mode):
    return jax.vmap(jax.vmap(lambda s, seed: (s.hash(seed), s.hash_pair(seed), s.uint32ed), in_axes=(0, None)), in_axes=(0, None))


def strategy_for(agg):
    n = {"quick": 24, "thorough": 400}[tier()]

    def strategy(shard):
        ks = [k for k in range(n) if k % 4 == shard % 4]
        return st.fixed_dictionaries({"k": st.sampled_from(ks), "agg": st.just(agg), "salt": st.integers(0, 10 ** 6), "seed": st.integers(0, 2 ** 32 - 1),
                                      "pick": st.integers(0, 10 ** 6), "big": st.booleans()})
    return strategy


def base_arrays(spec, salt, agg):
    if not agg:
        return L.arrays(spec, (), salt)
    out = {}
    for li, (path, f, lead) in enumerate(L.leaves(spec)):
        sh = L.leaf_shape(f, lead)
        n = int(np.prod(sh)) if sh else 1
        v = L._mix(np.arange(n, dtype=np.uint64) + np.uint64(li * 99991 + salt * 1299709)) & np.uint64((1 << f["bits"]) - 1)
        out[path] = v.astype(L.npdt(f["dt"])).reshape(sh)
    return out


def variants(spec, case):
    """NROWS rows: the base, single-bit flips, swaps, other states; [(description)] and {path: array}."""
    lv = L.leaves(spec)
    base = base_arrays(spec, case["salt"], case["agg"])
    rows = {p: np.repeat(a[None], NROWS, 0) for p, a in base.items()}
    flips = []
    for p, f, lead in lv:
        a = base[p]
        width = 1 if a.dtype == bool else (f.get("bits") if case["agg"] else None) or 8 * a.dtype.itemsize
        flips += [(p, e, b) for e in range(a.size) for b in range(width)]
    rng = np.random.RandomState(case["pick"] % (2 ** 31))
    what = ["base"]
    r = 1
    if flips:
        order = rng.permutation(len(flips))[:96]
        # always some flips of the outermost bits of every leaf
        ends = [i for i, (p, e, b) in enumerate(flips) if (i == 0 or flips[i - 1][0] != p) or (i + 1 == len(flips) or flips[i + 1][0] != p)]
        for i in list(dict.fromkeys(ends[:16] + list(order)))[:96]:
            p, e, b = flips[i]
            flat = rows[p][r].reshape(-1)
            if flat.dtype == bool:
                flat[e] = not flat[e]
            else:
                flat.view(f"uint{8 * flat.dtype.itemsize}")[e] ^= np.array(1 << b, f"uint{8 * flat.dtype.itemsize}")
            rows[p][r] = flat.reshape(base[p].shape)
            what.append(f"bit {b} of element {e} of {'.'.join(p)} flipped")
            r += 1
    for j in range(12):  # swaps of two elements of one leaf
        p, f, lead = lv[rng.randint(len(lv))]
        if base[p].size > 1:
            x, y = rng.choice(base[p].size, 2, replace=False)
            flat = rows[p][r].reshape(-1)
            flat[[x, y]] = flat[[y, x]]
            rows[p][r] = flat.reshape(base[p].shape)
            what.append(f"elements {x} and {y} of {'.'.join(p)} swapped")
            r += 1
    for i in range(len(lv)):  # contents of two leaves of one kind swapped
        for j in range(i):
            p, q = lv[i][0], lv[j][0]
            if r < NROWS - 8 and base[p].dtype == base[q].dtype and base[p].shape == base[q].shape and lv[i][1].get("bits") == lv[j][1].get("bits"):
                rows[p][r], rows[q][r] = base[q], base[p]
                what.append(f"leaves {'.'.join(p)} and {'.'.join(q)} swapped")
                r += 1
    s = 0
    while r < NROWS:  # unrelated states; the last row repeats the base
        s += 1
        if r < NROWS - 1:
            for p, a in base_arrays(spec, case["salt"] * 131 + s, case["agg"]).items():
                rows[p][r] = a
        what.append("other state" if r < NROWS - 1 else "copy of the base")
        r += 1
    return what, rows


def row_bytes(rows, i):
    return b"".join(a[i].tobytes() for a in rows.values())


def eq(a, b, what, *args):
    a, b = np.asarray(a), np.asarray(b)
    check(a.dtype == b.dtype and a.shape == b.shape and (a == b).all(), what + ": {} against {}", *args, a.reshape(-1)[:4].tolist(), b.reshape(-1)[:4].tolist())


def run(case):
    k, agg = case["k"], case["agg"]
    spec = pool_spec(k, agg)
    what, rows = variants(spec, case)
    keys = [row_bytes(rows, i) for i in range(NROWS)]
    seed = case["seed"] if case["big"] else case["seed"] % 4
    useed = jnp.uint32(seed)
    ref = {}
    for mode, cls in classes(k, agg).items():
        batch = L.from_np(spec, rows, cls=cls)
        out = jax.tree_util.tree_map(np.asarray, batch_fn(k, agg, mode)(batch, useed))
        h, pair, w, b = out["hash"], out["pair"], out["w"], out["b"]
        check(h.dtype == np.uint32 and h.shape == (NROWS,), "{}: hash is {} {}", mode, h.dtype, h.shape)
        check(w.dtype == np.uint32 and b.dtype == np.uint8 and w.ndim == 2 and b.ndim == 2, "{}: views are {} {} and {} {}", mode, w.dtype, w.shape, b.dtype, b.shape)
        eq(h, pair[0], "{}: hash() and hash_pair()[0]", mode)
        eq(h, out["h1"], "{}: hash() and hash_with_uint32ed()", mode)
        for i in (0, 1):
            eq(pair[i], out["p1"][i], "{}: element {} of hash_pair() and hash_pair_with_uint32ed()", mode, i)
        eq(w, out["w1"], "{}: uint32ed and the view of hash_with_uint32ed()", mode)
        eq(w, out["w2"], "{}: uint32ed and the view of hash_pair_with_uint32ed()", mode)
        # equal content <=> equal views; different content => different hash (up to chance)
        for view, name in ((w, "uint32ed"), (b, "bytes")):
            seen = {}
            for i in range(NROWS):
                o = seen.setdefault(view[i].tobytes(), i)
                check(keys[o] == keys[i], "{}: two different states ({} / {}) have the same {}", mode, what[o], what[i], name)
            firsts = {}
            for i in range(NROWS):
                o = firsts.setdefault(keys[i], i)
                check(view[o].tobytes() == view[i].tobytes(), "{}: equal states (rows {} and {}) have different {}", mode, o, i, name)
                check(h[o] == h[i] and pair[1][o] == pair[1][i], "{}: equal states (rows {} and {}) hash differently", mode, o, i)
        ndistinct = len(set(keys))
        for name, vals in (("hash", h), ("second hash", pair[1])):
            clash = [what[i] for i in range(1, NROWS) if keys[i] != keys[0] and vals[i] == vals[0]]
            check(len(clash) <= 1, "{}: the {} ignores {}", mode, name, clash[:4])
            check(len(set(vals.tolist())) >= ndistinct - 1, "{}: {} different states have only {} different values of the {}", mode, ndistinct, len(set(vals.tolist())), name)
        # other routes for single instances: eager, sliced, rebuilt from NumPy, stacked and sliced
        i = case["pick"] % NROWS
        one = batch[i]
        for label, s in (("slice", one), ("rebuilt", L.from_np(spec, {p: a[i] for p, a in rows.items()}, cls=cls)), ("stacked", xnp.stack([one, batch[0]])[0])):
            got = all_routes(s, seed if seed < 2 ** 31 else useed)
            eq(got["hash"], h[i], "{} eager {}: hash()", mode, label)
            eq(got["h1"], h[i], "{} eager {}: hash_with_uint32ed()", mode, label)
            eq(got["pair"][0], h[i], "{} eager {}: hash_pair()[0]", mode, label)
            eq(got["pair"][1], pair[1][i], "{} eager {}: hash_pair()[1]", mode, label)
            eq(got["p1"][1], pair[1][i], "{} eager {}: hash_pair_with_uint32ed()", mode, label)
            eq(got["w"], w[i], "{} eager {}: uint32ed", mode, label)
            eq(got["b"], b[i], "{} eager {}: bytes", mode, label)
        if seed == 0:
            eq(one.hash(), h[i], "{}: hash() without a seed and with seed 0", mode)
            eq(one.hash_pair()[1], pair[1][i], "{}: hash_pair() without a seed and with seed 0", mode)
        if mode in ("auto", "packed"):
            two = batch2_fn(k, agg, mode)(batch.reshape((4, NROWS // 4)), useed)
            eq(np.asarray(two[0]).reshape(-1), h, "{}: hash over a two-dimensional batch", mode)
            eq(np.asarray(two[1][1]).reshape(-1), pair[1], "{}: pair over a two-dimensional batch", mode)
            eq(np.asarray(two[2]).reshape(w.shape), w, "{}: words over a two-dimensional batch", mode)
            seeds = [seed ^ (1 << j) for j in range(0, 32, 3)] + [seed]
            hs = np.asarray(jax.vmap(lambda sd: one.hash(sd))(jnp.asarray(seeds, dtype=jnp.uint32)))
            check(len(set(hs.tolist())) >= len(seeds) - 1, "{}: {} seeds give only {} hashes", mode, len(seeds), len(set(hs.tolist())))
        group = "packed" if mode.startswith("packed") else "raw"
        if group in ref:
            m0, h0, p0, w0, b0 = ref[group]
            eq(h, h0, "hash() in mode {} and mode {}", mode, m0)
            eq(pair[1], p0, "hash_pair() in mode {} and mode {}", mode, m0)
            eq(w, w0, "uint32ed in mode {} and mode {}", mode, m0)
            eq(b, b0, "bytes in mode {} and mode {}", mode, m0)
        else:
            ref[group] = (mode, h, pair[1], w, b)
    nb = [int(a[0].nbytes) for a in rows.values()]
    return len(nb) > 1 or any(n % 4 for n in nb), sorted(L.tags(spec)) + (["aggregate"] if agg else [])


# ---------------------------------------------------------------- long states: the default mode switches to streaming
LONG_RULE = ("states of 7000-20000 words around the default streaming threshold (8192), compared across modes and against the word view, with bit flips "
             "near both ends and the segment borders; every case is non-trivial")


@functools.lru_cache(None)
def long_classes(n, dt):
    spec = {"fields": [["a", L.P("uint32", 5)], ["mid", L.P(dt, n)], ["z", L.P("uint16", 3)]]}
    out = {}
    for mode in ("off", "on", "auto"):
        old = dict(os.environ)
        os.environ.update(MODES[mode])
        try:
            out[mode] = L.build(spec, {"__key__": "long-" + mode})
        finally:
            os.environ.clear()
            os.environ.update(old)
    return spec, out


def long_strategy(shard):
    return st.fixed_dictionaries({"n": st.sampled_from([8184, 8185, 8186, 7000, 20000]), "dt": st.sampled_from(["uint32", "uint8", "float16"]),
                                  "salt": st.integers(0, 10 ** 6), "seed": st.integers(0, 2 ** 31 - 1), "pos": st.integers(0, 10 ** 6)})


def run_long(case):
    n = case["n"] * {"uint32": 1, "uint8": 4, "float16": 2}[case["dt"]]
    spec, classes = long_classes(n, case["dt"])
    a = L.arrays(spec, (), case["salt"])
    b = {p: v.copy() for p, v in a.items()}
    pos = [0, n - 1, case["pos"] % n][case["pos"] % 3]
    view = b[("mid",)].reshape(-1).view(np.uint8)
    view[pos * a[("mid",)].dtype.itemsize] ^= 1 << (case["salt"] % 8)
    ref = None
    for mode, cls in classes.items():
        x, y = L.from_np(spec, a, cls=cls), L.from_np(spec, b, cls=cls)
        r = all_routes(x, case["seed"])
        eq(r["hash"], r["h1"], "{}: hash() and hash_with_uint32ed()", mode)
        eq(r["hash"], r["pair"][0], "{}: hash() and hash_pair()[0]", mode)
        eq(r["pair"][1], r["p1"][1], "{}: hash_pair() and hash_pair_with_uint32ed()", mode)
        check(int(x.hash(case["seed"])) != int(y.hash(case["seed"])) or int(x.hash(case["seed"] + 1)) != int(y.hash(case["seed"] + 1)),
              "{}: a bit flip in element {} does not change the hash", mode, pos)
        if ref is None:
            ref = r
        else:
            eq(r["hash"], ref["hash"], "hash() of a long state in mode {} and off", mode)
            eq(r["pair"][1], ref["pair"][1], "hash_pair() of a long state in mode {} and off", mode)
    return True, [case["dt"], "above threshold" if case["n"] > 8184 else "below threshold"]


SUBS = [Sub("routes", strategy_for(False), run, quick=100, shards=4, rule=RULE),
        Sub("aggregate", strategy_for(True), run, quick=100, shards=4, rule=RULE),
        Sub("long", long_strategy, run_long, quick=24, thorough=120, shards=2, rule=LONG_RULE)]
SUBS += x64(SUBS, routes=25)
