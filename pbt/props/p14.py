"""P14: raw bit packing and packed fields are lossless."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, x64
from xtructure import FieldDescriptor, xtructure_dataclass
from xtructure.core.xtructure_decorators.aggregate_bitpack.bitpack import from_uint8, packed_num_bytes, to_uint8

RAW_RULE = ("widths 1..32, lengths 0..40 around block boundaries, shapes of rank 1-3, contents biased to all-ones / single bits; non-trivial: more than one "
            "value and a width that is not a whole byte, or a length that does not fill the last block")


def values(n, bits, salt, ones):
    v = L._mix(np.arange(n, dtype=np.uint64) + np.uint64(salt * 1299709 + bits))
    if ones == 1:
        v = np.full(n, (1 << bits) - 1, dtype=np.uint64)
    elif ones == 2:
        v = np.uint64(1) << (v % np.uint64(bits))
    return v & np.uint64((1 << bits) - 1)


def carrier(bits, k):
    names = (["bool"] if bits == 1 else []) + [d for d, w in (("uint8", 8), ("uint16", 16), ("uint32", 32), ("int32", 31), ("int16", 15)) if w >= bits]
    return names[k % len(names)]


@functools.lru_cache(None)
def raw_fn(bits, shape, jitted):
    def f(v):
        return to_uint8(v, active_bits=bits), from_uint8(to_uint8(v, active_bits=bits), shape, active_bits=bits)
    return jax.jit(f) if jitted else f


# lengths are a deterministic function of the width so that compiled programs are shared
def lengths(bits):
    per = int(np.lcm(bits, 8)) // bits
    return sorted({0, 1, 2, per - 1, per, per + 1, 2 * per, 2 * per + 1, 13, 40} - {-1})


def raw_strategy(shard):
    widths = [b for b in range(1, 33) if b % 8 == shard % 8]
    return st.sampled_from(widths).flatmap(lambda b: st.fixed_dictionaries({
        "bits": st.just(b), "n": st.sampled_from(lengths(b)), "salt": st.integers(0, 10 ** 6), "ones": st.sampled_from([0, 0, 0, 1, 2]),
        "dt": st.integers(0, 5), "split": st.sampled_from([0, 0, 0, 2, 3]), "jit": st.sampled_from([True, True, True, False])}))


def run_raw(case):
    bits, n = case["bits"], case["n"]
    shape = (n,)
    if case["split"] and n and n % case["split"] == 0:
        shape = (case["split"], n // case["split"])
    v = values(n, bits, case["salt"], case["ones"]).astype(L.npdt(carrier(bits, case["dt"]))).reshape(shape)
    packed, back = raw_fn(bits, shape, case["jit"])(jnp.asarray(v))
    packed, back = np.asarray(packed), np.asarray(back)
    check(packed.dtype == np.uint8 and packed.shape == (packed_num_bytes(n, bits),), "{} values of {} bits were packed into {} {}, published {} bytes", n, bits,
          packed.shape, packed.dtype, packed_num_bytes(n, bits))
    check(packed_num_bytes(n, bits) == L.packed_len(n, bits), "published size {} expected {}", packed_num_bytes(n, bits), L.packed_len(n, bits))
    check(back.shape == shape, "unpacked shape {} expected {}", back.shape, shape)
    if n:
        check((bits == 1) == (back.dtype == bool), "unpacked dtype {}", back.dtype)
    bad = np.argwhere(back.astype(np.uint64) != v.astype(np.uint64))
    check(len(bad) == 0, "{} bits, {} values: element {} came back as {}, was {}", bits, n, bad[:1].tolist(), back[tuple(bad[0])] if len(bad) else 0, v[tuple(bad[0])] if len(bad) else 0)
    per = int(np.lcm(bits, 8)) // bits
    return n > 1 and (bits % 8 != 0 or n % per != 0), [f"bits {bits}", "jit" if case["jit"] else "eager"]


def size_strategy(shard):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(0, 300), st.integers(0, 10 ** 6)), "bits": st.integers(-1, 34)})


def run_size(case):
    n, b = case["n"], case["bits"]
    try:
        got = packed_num_bytes(n, b)
    except ValueError:
        check(not 1 <= b <= 32, "packed_num_bytes({}, {}) refused", n, b)
        return False, ["refused"]
    check(1 <= b <= 32, "packed_num_bytes({}, {}) accepted", n, b)
    check(got == L.packed_len(n, b), "packed_num_bytes({}, {}) = {}, expected {}", n, b, got, L.packed_len(n, b))
    # whole blocks: enough room, less than one block of waste
    block = int(np.lcm(b, 8)) // 8
    check(0 <= got * 8 - n * b < block * 8 + 8, "packed_num_bytes({}, {}) = {} wastes more than a block", n, b, got)
    return n > 0, [f"bits {b}"]


# ---------------------------------------------------------------- packed fields of a class
FIELD_RULE = ("histories of from_unpacked / set_unpacked / reading / indexing on classes with 1-3 packed fields (widths 1..32) and ordinary "
              "fields; non-trivial: at least one set_unpacked on a class with two or more fields")
USHAPES = [[], [1], [3], [5], [2, 3], [9], [16], [1, 7]]


def declared_unpacked(bits):
    return "bool" if bits == 1 else "uint8" if bits <= 8 else "uint32"


def pool(k):
    """The k-th of a fixed family of classes: [(name, bits or None, unpacked shape / shape, unpacked dtype)]."""
    r = np.random.RandomState(1000 + k)
    fields, npk = [], 1 + k % 3
    for j in range(npk):
        b = int((k * 7 + j * 11) % 32) + 1
        dt = carrier(b, int(r.randint(5))) if r.rand() < 0.5 else None
        fields.append((f"p{j}", b, tuple(USHAPES[r.randint(len(USHAPES))]), dt))
    if k % 4:
        fields.insert(int(r.randint(npk + 1)), ("plain", None, (2,), "int16"))
    return fields


@functools.lru_cache(None)
def field_class(k):
    ann = {}
    for name, b, sh, dt in pool(k):
        if b is None:
            ann[name] = FieldDescriptor.tensor(dtype=L.DT[dt], shape=sh)
        else:
            kw = {"unpacked_dtype": L.DT[dt]} if dt else {}
            ann[name] = FieldDescriptor.packed_tensor(shape=sh, packed_bits=b, **kw)
    return xtructure_dataclass(type(f"Packed{k}", (), {"__annotations__": ann, "__module__": L._MODNAME}))


NPOOL = 64
FBATCH = [(), (), (3,), (2, 2), (1,), (0,)]


def field_strategy(shard):
    val = st.fixed_dictionaries({"salt": st.integers(0, 10 ** 6), "ones": st.sampled_from([0, 0, 0, 1, 2])})
    op = st.one_of(st.tuples(st.just("set"), st.integers(1, 7), val).map(list), st.tuples(st.just("set"), st.integers(1, 7), val).map(list),
                   st.tuples(st.just("row"), st.integers(0, 9)).map(list), st.tuples(st.just("put"), st.integers(0, 9), st.integers(0, 9)).map(list),
                   st.just(["roundtrip"]))
    ks = [k for k in range(NPOOL) if k % 8 == shard % 8]
    # each class is used with two batch shapes only, to share compiled operations
    return st.sampled_from(ks).flatmap(lambda k: st.fixed_dictionaries({
        "k": st.just(k), "batch": st.sampled_from([list(FBATCH[k % 6]), list(FBATCH[(k // 8) % 6])]), "init": val,
        "how": st.sampled_from(["full", "partial", "default"]), "ops": st.lists(op, min_size=1, max_size=5)}))


def logical(f, batch, salt, ones):
    name, b, sh, dt = f
    n = int(np.prod(tuple(batch) + sh)) if tuple(batch) + sh else 1
    if b is None:
        return L._mix(np.arange(n, dtype=np.uint64) + np.uint64(salt)).astype(np.int16).reshape(tuple(batch) + sh)
    return values(n, b, salt + len(name) * 31 + ord(name[-1]), ones).astype(L.npdt(dt or declared_unpacked(b))).reshape(tuple(batch) + sh)


def run_field(case):
    k, batch = case["k"], tuple(case["batch"])
    fields, cls = pool(k), field_class(k)
    packed = [f for f in fields if f[1] is not None]
    want = {f[0]: logical(f, batch, **case["init"]) for f in fields}
    if case["how"] == "full":
        x = cls.from_unpacked(shape=batch, **{n: jnp.asarray(v) for n, v in want.items()})
    elif case["how"] == "partial":
        keep = {fields[0][0]: jnp.asarray(want[fields[0][0]])}
        x = cls.from_unpacked(shape=batch, **keep)
        for f in fields[1:]:
            if f[1] is None:
                want[f[0]] = np.zeros(batch + f[2], np.int16)
            else:
                want[f[0]] = np.zeros(batch + f[2], L.npdt(f[3] or declared_unpacked(f[1])))
    else:
        x = cls.default(batch)
        for f in fields:
            want[f[0]] = np.zeros(batch + f[2], np.int16 if f[1] is None else L.npdt(f[3] or declared_unpacked(f[1])))

    def verify(x, want, batch, what):
        for name, b, sh, dt in fields:
            got = np.asarray(getattr(x, name + "_unpacked") if b else getattr(x, name))
            d = L.same({name: want[name]}, {name: got})
            check(d is None, "{}: {}", what, d)
            if b:
                raw = np.asarray(getattr(x, name))
                n = int(np.prod(sh)) if sh else 1
                check(raw.dtype == np.uint8 and raw.shape == batch + (packed_num_bytes(n, b),), "{}: field {} is stored as {} {}", what, name, raw.dtype, raw.shape)
        check(x.shape.batch == batch, "{}: batch {} expected {}", what, x.shape.batch, batch)

    verify(x, want, batch, "built by " + case["how"])
    sets, labels = 0, {"how " + case["how"]}
    for op in case["ops"]:
        old, oldwant, oldbatch = x, dict(want), batch
        if op[0] == "set":
            new = {f[0]: logical(f, batch, **op[2]) for i, f in enumerate(packed) if op[1] >> i & 1}
            x = x.set_unpacked(**{n: jnp.asarray(v) for n, v in new.items()})
            want.update(new)
            sets += bool(new)
        elif op[0] == "row" and batch and batch[0]:
            i = op[1] % batch[0]
            x, batch = x[i], batch[1:]
            want = {n: v[i] for n, v in want.items()}
            labels.add("indexed")
        elif op[0] == "put" and batch and batch[0]:
            i, j = op[1] % batch[0], op[2] % batch[0]
            x = x.at[i].set(x[j])
            want = {n: v.copy() for n, v in want.items()}
            for v in want.values():
                v[i] = v[j]
            labels.add("row copied")
        elif op[0] == "roundtrip":
            kw = {n: getattr(x, n + "_unpacked") if b else getattr(x, n) for n, b, _, _ in fields}
            x = cls.from_unpacked(shape=batch, **kw)
        verify(x, want, batch, op[0])
        verify(old, oldwant, oldbatch, f"previous instance after {op[0]}")
    return sets > 0 and len(fields) > 1, sorted(labels)


SUBS = [Sub("raw", raw_strategy, run_raw, quick=1600, shards=8, rule=RAW_RULE),
        Sub("size", size_strategy, run_size, quick=3000, shards=1, rule="published sizes for widths -1..34 and up to a million values"),
        Sub("field", field_strategy, run_field, quick=320, shards=8, rule=FIELD_RULE)]


def long_strategy(shard):
    return st.fixed_dictionaries({"bits": st.integers(1, 32).filter(lambda b: b % 2 == shard % 2), "n": st.sampled_from([255, 257, 65537, 70001]), "salt": st.integers(0, 10 ** 6), "ones": st.sampled_from([0, 0, 0, 1, 2]),
                                  "dt": st.integers(0, 5), "split": st.just(0), "jit": st.just(True)})


SUBS.append(Sub("long", long_strategy, run_raw, quick=120, thorough=1500, shards=2, rule="the raw check on 255-70001 values"))
SUBS += x64(SUBS, raw=150, field=40)
