"""P28: descriptors carry what was asked for, derived descriptors change only what was overridden, bad arguments are refused."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from typing import Annotated

from pbt import layouts as L
from pbt.common import check, Sub, x64
from xtructure import (FieldDescriptor, broadcast_intrinsic_shape, clone_field_descriptor, descriptor_metadata, with_intrinsic_shape,
                       xtructure_dataclass)

ATTRS = ["dtype", "intrinsic_shape", "fill_value", "fill_value_factory", "validator", "bits", "packed_bits", "unpacked_dtype",
         "unpacked_intrinsic_shape"]
NESTS = [{"fields": [["p", L.P("uint8", 2)]]}, {"fields": [["q", L.P("float32")], ["r", L.P("bool", 3)]]}]
FACT = L.FACTORIES + [lambda shape, dtype: 1]
VALID = [L.size_validator(2, L.Refused), L.size_validator(40, ValueError), L.size_validator(0, KeyError)]
SHAPES = [[], [1], [3], [2, 2], [4, 1, 2]]
DTS = sorted(d for d in L.DT if "64" not in d)


def dtype_of(d):
    if d.startswith("nest"):
        return L.build(NESTS[int(d[4:])])
    if d.endswith("*"):
        return jnp.dtype(L.DT[d[:-1]])
    return L.DT[d]


DNAMES = DTS + [d + "*" for d in DTS] + ["nest0", "nest1"]


def auto_fill(dtype):
    if hasattr(dtype, "default"):
        return None
    dt = np.dtype(jnp.dtype(dtype))
    if dt == bool:
        return False
    if dt.kind == "u":
        return int(np.iinfo(dt).max)
    return 0 if dt.kind == "i" else float("inf")


def fill_for(code, dtype):
    """A fill value fitting the dtype."""
    if code is None:
        return None
    dt = np.dtype(jnp.dtype(dtype)) if not hasattr(dtype, "default") else np.dtype(np.uint8)
    if dt == bool:
        return bool(code % 2)
    if dt.kind == "u":
        return int(code % 200)
    if dt.kind == "i":
        return int(code % 200 - 100)
    return (code % 200 - 100) / 4


def same_attr(name, a, b):
    if name in ("intrinsic_shape", "unpacked_intrinsic_shape"):
        return (a is None and b is None) or (a is not None and b is not None and type(a) is tuple and a == tuple(b))
    if name in ("dtype", "unpacked_dtype", "fill_value_factory", "validator"):
        return a is b or (name.endswith("dtype") and a is not None and b is not None and type(a) is type(b) and a == b)
    return type(a) is type(b) and a == b


def compare(d, want, what):
    check(type(d) is FieldDescriptor, "{}: a {} came out", what, type(d))
    for n in ATTRS:
        check(same_attr(n, getattr(d, n), want[n]), "{}: {} is {!r}, expected {!r}", what, n, getattr(d, n), want[n])
    m = descriptor_metadata(d)
    check(sorted(m) == sorted(ATTRS), "{}: metadata has the keys {}", what, sorted(m))
    for n in ATTRS:
        check(same_attr(n, m[n], want[n]), "{}: metadata {} is {!r}, expected {!r}", what, n, m[n], want[n])


# ---------------------------------------------------------------- declaration
def declaration():
    return st.fixed_dictionaries({
        "how": st.sampled_from(["ctor", "ctor_positional", "tensor", "scalar", "packed", "packed_old", "packed_both", "getitem"]),
        "dt": st.sampled_from(DNAMES), "sh": st.sampled_from(SHAPES), "fill": st.one_of(st.none(), st.integers(0, 400)),
        "factory": st.sampled_from([None, None, 0, 1, 2]), "validator": st.sampled_from([None, None, 0, 1, 2]),
        "bits": st.one_of(st.none(), st.integers(1, 32)), "packed": st.integers(1, 32),
        "ud": st.sampled_from([None, None, "uint8", "uint32", "int32", "bool"]), "nitem": st.integers(0, 3)})


def declare(c):
    """(descriptor, expected attributes)"""
    dt, sh = dtype_of(c["dt"]), tuple(c["sh"])
    fill = fill_for(c["fill"], dt)
    fac = FACT[c["factory"]] if c["factory"] is not None and fill is None else None
    val = VALID[c["validator"]] if c["validator"] is not None else None
    ud = L.DT[c["ud"]] if c["ud"] else None
    w = dict(dtype=dt, intrinsic_shape=sh, fill_value=fill, fill_value_factory=fac, validator=val, bits=c["bits"], packed_bits=None,
             unpacked_dtype=None, unpacked_intrinsic_shape=None)
    how = c["how"]
    if how == "ctor":
        d = FieldDescriptor(dtype=dt, intrinsic_shape=sh, fill_value=fill, bits=c["bits"], fill_value_factory=fac, validator=val)
    elif how == "ctor_positional":
        d = FieldDescriptor(dt, sh, fill, bits=c["bits"], packed_bits=c["packed"], unpacked_dtype=ud, unpacked_intrinsic_shape=(7,),
                            fill_value_factory=fac, validator=val)
        w.update(packed_bits=c["packed"], unpacked_dtype=ud, unpacked_intrinsic_shape=(7,))
    elif how == "tensor":
        d = FieldDescriptor.tensor(dt, sh, bits=c["bits"], fill_value=fill, fill_value_factory=fac, validator=val)
    elif how == "scalar":
        d = FieldDescriptor.scalar(dt, bits=c["bits"], default=fill, fill_value_factory=fac, validator=val)
        w.update(intrinsic_shape=())
    elif how.startswith("packed"):
        kw = dict(packed_bits=c["packed"], validator=val)
        if ud is not None:
            kw["unpacked_dtype"] = ud
        if fac is not None:
            kw.update(fill_value=None, fill_value_factory=fac)
        elif fill is not None:
            kw["fill_value"] = c["fill"] % 200
        if how != "packed_old":
            kw["shape"] = list(sh)
        if how != "packed":
            kw["unpacked_shape"] = sh
        d = FieldDescriptor.packed_tensor(**kw)
        n = int(np.prod(sh)) if sh else 1
        p = c["packed"]
        w.update(dtype=jnp.uint8, intrinsic_shape=(L.packed_len(n, p),), bits=None, packed_bits=p, unpacked_intrinsic_shape=sh,
                 fill_value=kw.get("fill_value", 0), unpacked_dtype=ud if ud is not None else jnp.bool_ if p == 1 else jnp.uint8 if p <= 8 else jnp.uint32)
    else:
        w.update(bits=None, validator=None, fill_value_factory=None, intrinsic_shape=(), fill_value=None)
        k = c["nitem"]
        if k == 0:
            d = FieldDescriptor[dt]
        elif k == 1:
            d = FieldDescriptor[(dt,)]
        elif k == 2:
            if fill is not None:
                d = FieldDescriptor[dt, fill]
                w["fill_value"] = fill
            else:
                d = FieldDescriptor[dt, sh]
                w["intrinsic_shape"] = sh
        else:
            d = FieldDescriptor[dt, sh, fill]
            w.update(intrinsic_shape=sh, fill_value=fill)
    if w["fill_value"] is None and w["fill_value_factory"] is None:
        w["fill_value"] = auto_fill(w["dtype"])
    return d, w


# ---------------------------------------------------------------- derivation
def step():
    shape = st.sampled_from(SHAPES)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("clone"), "dt": st.one_of(st.none(), st.sampled_from(DNAMES)), "sh": st.one_of(st.none(), shape),
                               "fill": st.one_of(st.none(), st.integers(0, 400)), "factory": st.sampled_from([None, None, 0, 1, 2]),
                               "validator": st.sampled_from([None, None, 0, 1, 2, "none"]), "as": st.sampled_from(["tuple", "list", "iter", "range"])}),
        st.fixed_dictionaries({"op": st.just("shape"), "sh": shape, "as": st.sampled_from(["tuple", "list", "iter"])}),
        st.fixed_dictionaries({"op": st.just("broadcast"), "sh": shape, "as": st.sampled_from(["tuple", "list", "iter"])}))


def as_shape(sh, how):
    if how == "tuple":
        return tuple(sh)
    if how == "list":
        return list(sh)
    if how == "range" and sh == [3]:
        return range(3, 4)
    return iter(list(sh))


DERIVE_RULE = ("random descriptors (8 ways of declaring, 10 dtypes as type or dtype object, nested classes, packed fields, fills, factories, "
               "validators) x 1-4 derivation steps with random override subsets; non-trivial: the declaration has an explicit fill, or the "
               "last descriptor carries a factory, a validator or a bit width; in one of three cases a class with the derived field is compared with one "
               "whose field is declared directly (defaults, reports, validation, hash, equality, packing)")


def derive_strategy(shard):
    return st.fixed_dictionaries({"base": declaration(), "steps": st.lists(step(), min_size=1, max_size=4), "batch": st.sampled_from([[], [2], [2, 1], [0]]),
                                  "salt": st.integers(0, 5), "probe": st.sampled_from([True, False, False])})


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__)


def tree(x):
    leaves, td = jax.tree_util.tree_flatten(x)
    return [(np.asarray(v).dtype.str, np.asarray(v).shape, np.asarray(v).tobytes()) for v in leaves]


def probe(desc, other, batch, salt):
    """What a class with this field does, as comparable values."""
    def cls():
        return xtructure_dataclass(type("Derived", (), {"__annotations__": {"f": desc, "other": other}, "__module__": L._MODNAME}))
    st_, c = outcome(cls)
    if st_ != "ok":
        return [("class", c)]
    r = [("class", "ok"), ("default_shape", str(c.default_shape)), ("default_dtype", str(c.default_dtype).replace("_rp", ""))]
    d = outcome(lambda: c.default(batch))
    r.append(("default", tree(d[1]) if d[0] == "ok" else d))
    r.append(("random", outcome(lambda: tree(c.random(batch, key=jax.random.PRNGKey(salt))))))
    if d[0] != "ok":
        return r
    x = d[1]
    r.append(("shape", str(x.shape)))
    r.append(("structured", str(x.structured_type)))
    r.append(("invariants", outcome(x.check_invariants)))
    if hasattr(desc.dtype, "default"):
        return r + [("row", outcome(lambda: tree(x[0])))]
    full = tuple(batch) + tuple(desc.intrinsic_shape)
    dt = np.dtype(jnp.dtype(desc.dtype))
    n = int(np.prod(full)) if full else 1
    v = jnp.asarray(((np.arange(n) * 7 + salt) % 5).reshape(full)).astype(dt)
    for name, val in [("good", v), ("dtype", v.astype(jnp.int32 if dt != np.int32 else jnp.float32)), ("shape", v[..., None]),
                      ("shorter", v[..., :-1] if full and full[-1] else None)]:
        if val is None:
            continue
        y = x.replace(f=val)
        r.append((name, outcome(lambda: tree(y)), outcome(y.check_invariants), str(y.shape), str(y.structured_type)))
    y = x.replace(f=v)
    if not batch:
        r.append(("hash", outcome(lambda: np.asarray(y.hash(3)).tolist())))
    if n:
        r.append(("equal", outcome(lambda: np.asarray(x == y).tolist())))
    if hasattr(type(y), "to_packed"):
        r.append(("packed", outcome(lambda: tree(y.to_packed()))))
    if hasattr(type(y), "f_unpacked"):
        r.append(("unpacked", outcome(lambda: tree(y.f_unpacked))))
    return r


def run_derive(case):
    d, w = declare(case["base"])
    compare(d, w, "declaration")
    history = [(d, dict(w))]
    touched, nontrivial = set(), False
    for k, s in enumerate(case["steps"]):
        w = dict(w)
        if s["op"] == "clone":
            kw = {}
            if s["dt"] is not None:
                kw["dtype"] = w["dtype"] = dtype_of(s["dt"])
            if s["sh"] is not None:
                kw["intrinsic_shape"] = as_shape(s["sh"], s["as"])
                w["intrinsic_shape"] = tuple(s["sh"])
            if s["fill"] is not None:
                kw["fill_value"] = w["fill_value"] = fill_for(s["fill"], w["dtype"])
                w["fill_value_factory"] = None
            elif s["factory"] is not None:
                kw["fill_value_factory"] = w["fill_value_factory"] = FACT[s["factory"]]
                w["fill_value"] = None
            if s["validator"] is not None:
                kw["validator"] = w["validator"] = None if s["validator"] == "none" else VALID[s["validator"]]
            d = clone_field_descriptor(d, **kw)
            if w["fill_value"] is None and w["fill_value_factory"] is None:
                w["fill_value"] = auto_fill(w["dtype"])
            touched |= set(kw)
        elif s["op"] == "shape":
            d = with_intrinsic_shape(d, as_shape(s["sh"], s["as"]))
            w["intrinsic_shape"] = tuple(s["sh"])
        else:
            d = broadcast_intrinsic_shape(d, as_shape(s["sh"], s["as"]))
            w["intrinsic_shape"] = tuple(s["sh"]) + tuple(w["intrinsic_shape"])
        compare(d, w, f"step {k} ({s['op']})")
        for i, (od, ow) in enumerate(history):
            check(od is not d, "step {} returned an earlier descriptor object", k)
            compare(od, ow, f"descriptor {i} after step {k}")
        history.append((d, dict(w)))
    nontrivial = any(v is not None for k, v in w.items() if k in ("validator", "bits", "packed_bits", "fill_value_factory")) or case["base"]["fill"] is not None

    labels = [case["base"]["how"], "nested" if hasattr(w["dtype"], "default") else "array"]
    # a class with the derived field against one declared directly
    if case["probe"] and int(np.prod(w["intrinsic_shape"] or (1,))) <= 256:
        direct = FieldDescriptor(w["dtype"], w["intrinsic_shape"], w["fill_value"], bits=w["bits"], packed_bits=w["packed_bits"],
                                 unpacked_dtype=w["unpacked_dtype"], unpacked_intrinsic_shape=w["unpacked_intrinsic_shape"],
                                 fill_value_factory=w["fill_value_factory"], validator=w["validator"])
        other = FieldDescriptor.scalar(jnp.uint16)
        batch = tuple(case["batch"])
        a, b = probe(d, other, batch, case["salt"]), probe(direct, other, batch, case["salt"])
        for x, y in zip(a, b):
            check(x == y, "class with the derived field: {} is {}, declared directly {}", x[0], str(x[1:])[:300], str(y[1:])[:300])
        check(len(a) == len(b), "class with the derived field answers {} probes, declared directly {}", len(a), len(b))
        labels.append("class " + str(a[0][1]))
        # and the defaults against the declaration itself
        got = dict((x[0], x[1]) for x in a).get("default")
        if got is not None and not hasattr(w["dtype"], "default") and isinstance(got, list):
            full = batch + tuple(w["intrinsic_shape"])
            v = w["fill_value_factory"](full, w["dtype"]) if w["fill_value_factory"] else w["fill_value"]
            want = np.asarray(jnp.full(full, v, dtype=w["dtype"]))
            check(got[0] == (want.dtype.str, full, want.tobytes()), "default of the derived field: {} expected {}", str(got[0])[:200], want)
    return nontrivial, labels


# ---------------------------------------------------------------- packed fields with leading storage axes
BROADCAST_RULE = ("packed fields of random width and logical shape, broadcast by a random leading shape, x batch shapes x contents; "
                  "non-trivial: at least two values per byte stream and two byte streams")


def broadcast_strategy(shard):
    return st.fixed_dictionaries({"bits": st.sampled_from([1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 32]), "sh": st.sampled_from([[5], [2, 3], [1], [9], []]),
                                  "lead": st.sampled_from([[2], [3], [2, 2], [1]]), "batch": st.sampled_from([[], [2], [3, 1]]), "salt": st.integers(0, 10 ** 6)})


def run_broadcast(case):
    bits, sh, lead, batch = case["bits"], tuple(case["sh"]), tuple(case["lead"]), tuple(case["batch"])
    d = broadcast_intrinsic_shape(FieldDescriptor.packed_tensor(shape=sh, packed_bits=bits), lead)
    cls = xtructure_dataclass(type("Wide", (), {"__annotations__": {"f": d, "g": FieldDescriptor.scalar(jnp.int32)}, "__module__": L._MODNAME}))
    n = int(np.prod(sh)) if sh else 1
    full = batch + lead + sh
    m = int(np.prod(full)) if full else 1
    v = (L._mix(np.arange(m, dtype=np.uint64) + np.uint64(case["salt"])) & np.uint64((1 << bits) - 1)).astype(np.uint32).reshape(full)
    udt = np.bool_ if bits == 1 else np.uint8 if bits <= 8 else np.uint32
    v = v.astype(udt)
    g = np.arange(int(np.prod(batch)) if batch else 1, dtype=np.int32).reshape(batch)
    for what, x in [("set_unpacked", cls.default(batch).replace(g=jnp.asarray(g)).set_unpacked(f=jnp.asarray(v))),
                    ("from_unpacked", cls.from_unpacked(shape=batch, f=jnp.asarray(v), g=jnp.asarray(g))),
                    ("from_unpacked of one field", cls.from_unpacked(shape=batch, f=jnp.asarray(v)).replace(g=jnp.asarray(g)))]:
        got = np.asarray(x.f_unpacked)
        check(x.f.shape == batch + lead + (L.packed_len(n, bits),) and x.f.dtype == jnp.uint8, "{}: stored {} {}", what, x.f.dtype, x.f.shape)
        check(got.shape == full and got.dtype == udt and (got == v).all(), "{}: reads back {} {}", what, got.dtype, got.shape)
        check((np.asarray(x.g) == g).all(), "{} changed another field", what)
        check(tuple(x.shape.batch) == batch, "{}: batch shape {}", what, x.shape.batch)
        if batch:
            check((np.asarray(x[batch[0] - 1].f_unpacked) == v[-1]).all(), "{}: a row reads back differently", what)
    return n > 1 and bits < 8, [f"{bits} bits"]


# ---------------------------------------------------------------- refusal
REFUSE_RULE = ("descriptor declarations and classes with one invalid part among valid ones; every case is non-trivial")
BADBITS = [0, -1, 33, 64, 1.0, 3.5, "3", [3], -33, 2 ** 40]
UNSUPPORTED = ["str", "dict", "object", "list", "stringdtype", "plain class", "none", "instance", "complex"]


def refuse_strategy(shard):
    return st.one_of(
        st.fixed_dictionaries({"kind": st.just("bits"), "bad": st.sampled_from(range(len(BADBITS))), "which": st.sampled_from(["bits", "packed_bits", "packed_tensor"]),
                               "how": st.sampled_from(["ctor", "tensor", "scalar"]), "dt": st.sampled_from(DTS), "sh": st.sampled_from(SHAPES)}),
        st.fixed_dictionaries({"kind": st.just("both"), "fill": st.integers(0, 400), "factory": st.integers(0, 2), "dt": st.sampled_from(DNAMES),
                               "how": st.sampled_from(["ctor", "tensor", "scalar", "packed_tensor", "clone"]), "sh": st.sampled_from(SHAPES)}),
        st.fixed_dictionaries({"kind": st.just("packed shape"), "a": st.sampled_from(SHAPES), "b": st.sampled_from(SHAPES + [[1, 3], [2, 1, 4]]), "bits": st.integers(1, 32),
                               "none": st.booleans()}),
        st.fixed_dictionaries({"kind": st.just("items"), "n": st.sampled_from([0, 4, 5]), "dt": st.sampled_from(DTS)}),
        st.fixed_dictionaries({"kind": st.just("annotation"), "n": st.integers(1, 4), "at": st.integers(0, 3), "what": st.sampled_from(["type", "jnp", "annotated", "string", "tuple"])}),
        st.fixed_dictionaries({"kind": st.just("dtype"), "what": st.sampled_from(UNSUPPORTED), "n": st.integers(1, 3), "at": st.integers(0, 2), "sh": st.sampled_from(SHAPES)}))


class Plain:
    pass


def refused(f, what, kinds=(TypeError, ValueError)):
    try:
        r = f()
    except kinds as e:
        return e
    except Exception as e:
        check(False, "{} raised {}: {}", what, type(e).__name__, e)
    check(False, "{} was accepted: {!r}", what, r)


def run_refuse(case):
    k = case["kind"]
    if k == "bits":
        bad, dt, sh = BADBITS[case["bad"]], L.DT[case["dt"]], tuple(case["sh"])
        if case["which"] == "packed_tensor":
            refused(lambda: FieldDescriptor.packed_tensor(shape=sh, packed_bits=bad), f"packed_bits={bad!r}", kinds=(Exception,))
        else:
            kw = {case["which"]: bad}
            mk = {"ctor": lambda: FieldDescriptor(dt, sh, **kw), "tensor": lambda: FieldDescriptor.tensor(dt, sh, **kw), "scalar": lambda: FieldDescriptor.scalar(dt, **kw)}
            refused(mk[case["how"]], f"{case['how']} with {kw}")
    elif k == "both":
        dt, sh = dtype_of(case["dt"]), tuple(case["sh"])
        kw = dict(fill_value=fill_for(case["fill"], dt), fill_value_factory=FACT[case["factory"]])
        mk = {"ctor": lambda: FieldDescriptor(dt, sh, **kw), "tensor": lambda: FieldDescriptor.tensor(dt, sh, **kw),
              "scalar": lambda: FieldDescriptor.scalar(dt, default=kw["fill_value"], fill_value_factory=kw["fill_value_factory"]),
              "packed_tensor": lambda: FieldDescriptor.packed_tensor(shape=sh, packed_bits=3, **kw),
              "clone": lambda: clone_field_descriptor(FieldDescriptor(dt, sh), **kw)}
        refused(mk[case["how"]], f"{case['how']} with both a fill value and a factory")
    elif k == "packed shape":
        if case["none"]:
            refused(lambda: FieldDescriptor.packed_tensor(packed_bits=case["bits"]), "packed_tensor without a shape")
        elif case["a"] != case["b"]:
            refused(lambda: FieldDescriptor.packed_tensor(shape=tuple(case["a"]), unpacked_shape=tuple(case["b"]), packed_bits=case["bits"]),
                    f"packed_tensor with shapes {case['a']} and {case['b']}")
        else:
            FieldDescriptor.packed_tensor(shape=tuple(case["a"]), unpacked_shape=list(case["b"]), packed_bits=case["bits"])
    elif k == "items":
        items = (L.DT[case["dt"]], (2,), 1, None, None)[:case["n"]]
        refused(lambda: FieldDescriptor[items], f"FieldDescriptor[...] with {case['n']} items")
    elif k == "annotation":
        bad = {"type": int, "jnp": jnp.float32, "annotated": Annotated[np.ndarray, "text", 3], "string": "FieldDescriptor(jnp.int32)", "tuple": (jnp.int32, (2,))}[case["what"]]
        names = L.NAMES[:case["n"] + 1]
        ann = {n: FieldDescriptor.tensor(jnp.uint8, (i,)) for i, n in enumerate(names)}
        victim = names[case["at"] % len(names)]
        ann[victim] = bad
        e = refused(lambda: xtructure_dataclass(type("Bad", (), {"__annotations__": ann, "__module__": L._MODNAME})), f"annotation {bad!r}")
        check(victim in str(e), "the refusal of field {} does not name it: {}", victim, e)
        check(not any(f"'{n}'" in str(e) for n in names if n != victim), "the refusal of field {} names another: {}", victim, e)
    else:
        bad = {"str": str, "dict": dict, "object": object, "list": [jnp.int32], "stringdtype": "int32", "plain class": Plain, "none": None,
               "instance": jnp.int32(3), "complex": bytes}[case["what"]]
        names = L.NAMES[:case["n"]]
        ann = {n: FieldDescriptor.scalar(jnp.uint8) for n in names}
        victim = names[case["at"] % len(names)]

        def go():
            ann[victim] = FieldDescriptor(bad, tuple(case["sh"]))
            return xtructure_dataclass(type("Bad", (), {"__annotations__": ann, "__module__": L._MODNAME}))
        e = refused(go, f"field type {bad!r}")
    return True, [k + " " + str(case.get("which") or case.get("how") or case.get("what") or "")]


SUBS = [
    Sub("derive", derive_strategy, run_derive, quick=900, shards=6, rule=DERIVE_RULE),
    Sub("broadcast", broadcast_strategy, run_broadcast, quick=60, shards=1, rule=BROADCAST_RULE),
    Sub("refuse", refuse_strategy, run_refuse, quick=300, shards=1, rule=REFUSE_RULE),
]
SUBS += x64(SUBS, derive=150)
