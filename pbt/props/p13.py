"""P13: aggregate packing is lossless; partial decoding equals indexing the full decode."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, x64

RULE = ("random classes whose leaves all declare 1..32 bits (nesting up to 3 levels), in-range contents biased to all-ones and single-bit values, "
        "batch ranks 0-2, index lists / slices / repeats; non-trivial: some leaf straddles a 32-bit word or the layout has a byte tail, and at "
        "least two leaves")
WIDE = {"bool": 1, "uint8": 8, "uint16": 16, "uint32": 32, "int32": 31, "int16": 15, "int8": 7}


def leaf():
    def finish(t):
        dt, b, sh = t
        return {"dt": dt, "sh": sh, "bits": 1 + b % WIDE[dt] if dt != "bool" else 1}
    return st.tuples(st.sampled_from(["bool", "uint8", "uint8", "uint16", "uint32", "uint32", "int32", "int16", "int8"]), st.integers(0, 31),
                     st.sampled_from([[], [], [1], [2], [3], [5], [7], [2, 3], [11], [3, 1, 2]])).map(finish)


def spec_strategy(d=2):
    opts = [leaf(), leaf(), leaf()] + ([spec_strategy(d - 1).map(lambda s: {"nest": s, "sh": []})] if d else [])
    return st.lists(st.one_of(*opts), min_size=1, max_size=4).map(lambda fs: {"fields": [[L.NAMES[i], f] for i, f in enumerate(fs)]})


def strategy(shard):
    idx = st.one_of(st.lists(st.integers(0, 999), min_size=1, max_size=6), st.integers(0, 999),
                    st.tuples(st.just("slice"), *[st.one_of(st.none(), st.integers(-12, 12))] * 2, st.sampled_from([None, 1, 2, 3, -1, -2])).map(list))
    return st.fixed_dictionaries({"spec": spec_strategy(), "batch": st.sampled_from([[], [], [1], [3], [2, 2], [0], [5]]), "salt": st.integers(0, 10 ** 6),
                                  "ones": st.sampled_from([0, 0, 1, 2]), "force": st.booleans(), "jit": st.sampled_from([True, True, True, False]), "declared": st.booleans(),
                                  "idx": st.lists(idx, min_size=1, max_size=3)})


def content(spec, batch, salt, ones):
    out = {}
    for li, (path, f, lead) in enumerate(L.leaves(spec)):
        full = tuple(batch) + L.leaf_shape(f, lead)
        n = int(np.prod(full)) if full else 1
        v = L._mix(np.arange(n, dtype=np.uint64) + np.uint64(li * 99991 + salt * 1299709))
        w = f["bits"]
        if ones == 1:
            v = np.full(n, (1 << w) - 1, dtype=np.uint64)
        elif ones == 2:
            v = np.uint64(1) << (v % np.uint64(w))
        out[path] = (v & np.uint64((1 << w) - 1)).astype(L.npdt(f["dt"])).reshape(full)
    return out


def default_dtype(bits):
    return np.dtype(bool) if bits == 1 else np.dtype(np.uint8) if bits <= 8 else np.dtype(np.uint32)


def make_idx(ix, n):
    """(index for the library, equivalent numpy index)"""
    if isinstance(ix, int):
        return ix % n, [ix % n]
    if ix and ix[0] == "slice":
        s = slice(ix[1], ix[2], ix[3])
        return s, s
    a = [i % n for i in ix]
    return (a, a) if len(a) % 2 else (jnp.asarray(a), a)


def run(case):
    spec = dict(case["spec"])
    if case["force"]:
        spec = dict(spec, opts={"aggregate_bitpack": True})
    cls = L.build(spec)
    batch = tuple(case["batch"])
    arrs = content(spec, batch, case["salt"], case["ones"])
    x = L.from_np(spec, arrs)
    lv = L.leaves(spec)
    policy = "declared" if case["declared"] else "default"
    sizes = {p: int(np.prod(L.leaf_shape(f, ld))) if L.leaf_shape(f, ld) else 1 for p, f, ld in lv}
    picks = []
    for k, ix in enumerate(case["idx"]):
        path, f, ld = lv[(case["salt"] + k) % len(lv)]
        picks.append((path, f) + make_idx(ix, sizes[path]))

    def go(x):
        pk = x.packed
        parts = [pk.unpack_field(".".join(p), indices=a, dtype_policy=policy) for p, _, a, _ in picks]
        parts.append(pk.unpack_field(".".join(lv[0][0])))
        return pk, pk.unpacked, pk.unpack(dtype_policy="declared"), parts

    pk, view, orig, parts = (jax.jit(go) if case["jit"] else go)(x)
    check(type(pk) is cls.Packed, "packed form is a {}", type(pk))
    schema = cls.bitpack_schema()
    total = sum(sizes[p] * f["bits"] for p, f, _ in lv)
    check(schema["total_bits"] == total, "schema says {} bits, declared {}", schema["total_bits"], total)
    check([(tuple(e["path"].split(".")), e["bits"], e["nvalues"], tuple(e["unpacked_shape"])) for e in schema["fields"]]
          == [(p, f["bits"], sizes[p], L.leaf_shape(f, ld)) for p, f, ld in lv], "schema fields {} do not match the declaration", schema["fields"])
    check(tuple(pk.words.shape) == batch + (schema["words_len"],) and tuple(pk.tail.shape) == batch + (schema["tail_bytes"],),
          "stored shapes {} {}, schema {} {}", pk.words.shape, pk.tail.shape, schema["words_len"], schema["tail_bytes"])
    check(np.asarray(pk.words).dtype == np.uint32 and np.asarray(pk.tail).dtype == np.uint8, "stored dtypes")
    stored = 4 * schema["words_len"] + schema["tail_bytes"]
    check(stored == schema["storage_bytes"] and -(-total // 8) <= stored <= -(-total // 32) * 4, "storage of {} bytes for {} bits (schema {})", stored, total, schema["storage_bytes"])
    want_view = {p: arrs[p].astype(default_dtype(f["bits"])) for p, f, _ in lv}
    d = L.same(want_view, L.to_np(spec, view))
    check(d is None, "unpacked view differs: {}", d)
    check(type(orig) is cls, "declared unpack returned {}", type(orig))
    d = L.same(arrs, L.to_np(spec, orig))
    check(d is None, "declared unpack differs: {}", d)
    if not case["jit"]:
        d = L.same(arrs, L.to_np(spec, pk.as_original()))
        check(d is None, "as_original differs: {}", d)
    for (path, f, _, nix), got in zip(picks, parts):
        flat = arrs[path].reshape(batch + (sizes[path],))[..., nix]
        exp = flat.astype(L.npdt(f["dt"]) if case["declared"] else default_dtype(f["bits"]))
        d = L.same({path: exp}, {path: np.asarray(got)})
        check(d is None, "unpack_field({}, indices={}): {}", ".".join(path), nix, d)
    d = L.same({lv[0][0]: want_view[lv[0][0]]}, {lv[0][0]: np.asarray(parts[-1])})
    check(d is None, "unpack_field without indices: {}", d)
    labels = {f"tail {schema['tail_bytes']}", f"batch {len(batch)}", "jit" if case["jit"] else "eager", "leaves %d" % min(len(lv), 5)}
    off, straddle = 0, False
    for p, f, _ in lv:
        for i in range(sizes[p]):
            straddle |= off // 32 != (off + f["bits"] - 1) // 32
            off += f["bits"]
    if straddle:
        labels.add("straddles words")
    return len(lv) > 1 and (straddle or schema["tail_bytes"] > 0), sorted(labels)


SUBS = [Sub("aggregate", strategy, run, quick=440, shards=8, rule=RULE)]


# ---------------------------------------------------------------- long leaves, large batches
LONG = [{"fields": [["a", {"dt": "uint8", "sh": [300], "bits": 3}], ["b", {"dt": "bool", "sh": [70, 5], "bits": 1}]]},
        {"fields": [["a", {"dt": "uint32", "sh": [700], "bits": 17}], ["n", {"nest": {"fields": [["c", {"dt": "uint8", "sh": [257], "bits": 5}]]}, "sh": []}]]},
        {"fields": [["s", {"dt": "uint8", "sh": [], "bits": 7}], ["t", {"dt": "uint16", "sh": [3], "bits": 11}]]},
        {"fields": [["a", {"dt": "uint8", "sh": [70000], "bits": 4}], ["z", {"dt": "uint32", "sh": [], "bits": 32}]]},
        {"fields": [["m", {"dt": "uint8", "sh": [2500, 3], "bits": 6}], ["b", {"dt": "bool", "sh": [33], "bits": 1}]]}]


def long_strategy(shard):
    pick = st.sampled_from([(0, []), (0, [300]), (1, [2]), (2, [70000]), (2, [300]), (3, []), (4, []), (4, [2])][shard % 2::2])
    far = st.one_of(st.lists(st.sampled_from([255, 256, 257, 65535, 65536, 32767, 32768, 69999, 3, 299]), min_size=1, max_size=5), st.sampled_from([255, 256, 65536, 69999]),
                    st.tuples(st.just("slice"), st.sampled_from([None, 200, 250]), st.sampled_from([None, 280]), st.sampled_from([None, 3, 7])).map(list))
    return pick.flatmap(lambda t: st.fixed_dictionaries({"spec": st.just(LONG[t[0]]), "batch": st.just(t[1]), "salt": st.integers(0, 10 ** 6), "ones": st.sampled_from([0, 0, 1, 2]),
                                                         "force": st.just(False), "jit": st.just(True), "declared": st.booleans(), "idx": st.lists(far, min_size=1, max_size=2)}))


SUBS.append(Sub("long", long_strategy, run, quick=60, thorough=1000, shards=2, rule="the same over leaves of 257-70000 values and batches of 300-70000"))
SUBS += x64(SUBS, aggregate=50)
