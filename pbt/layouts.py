"""Dataclass layouts as JSON specs, built into real xtructure classes; instances from integer codes; field walking.

A spec is {"fields": [[name, field], ...], "opts": {...}} and a field is one of
  {"dt": "uint8", "sh": [2], "bits": 3?, "fill": v?}          plain array field
  {"nest": spec, "sh": []}                                     nested dataclass
  {"packed": 3, "sh": [5], "ud": "uint8"?}                     in-memory packed field
Nothing here looks at the library's internals: values are read back by attribute access along the declared fields.
"""
import hashlib
import json
import sys
import types
from typing import Annotated

import jax
import jax.numpy as jnp
import numpy as np

from xtructure import FieldDescriptor, xtructure_dataclass

_MODNAME = "pbt_generated_classes"
_mod = types.ModuleType(_MODNAME)
sys.modules[_MODNAME] = _mod
_cache = {}
X64 = bool(jax.config.jax_enable_x64)

DT = {"bool": jnp.bool_, "uint8": jnp.uint8, "uint16": jnp.uint16, "uint32": jnp.uint32, "int8": jnp.int8,
      "int16": jnp.int16, "int32": jnp.int32, "float16": jnp.float16, "bfloat16": jnp.bfloat16, "float32": jnp.float32,
      "uint64": jnp.uint64, "int64": jnp.int64, "float64": jnp.float64}


def npdt(name):
    return np.dtype(jnp.dtype(DT[name]))


def class_name(spec):
    return "C" + hashlib.blake2b(json.dumps(spec, sort_keys=True).encode(), digest_size=6).hexdigest()


class Refused(Exception):
    """Raised by generated validators; neither TypeError nor ValueError on purpose."""


def size_validator(limit, error):
    def v(value):
        n = sum(x.size for x in jax.tree_util.tree_leaves(value) if hasattr(x, "size"))
        if n > limit:
            raise error(f"more than {limit} elements")
        return False  # the result of a validator means nothing
    return v


ERRORS = [Refused, ValueError, TypeError, KeyError]


def descriptor(f):
    vk = {"validator": size_validator(f["vlimit"], ERRORS[f["verr"]])} if "vlimit" in f else {}
    if "nest" in f:
        sh = tuple(f.get("sh", ()))
        return FieldDescriptor.tensor(dtype=build(f["nest"]), shape=sh, **vk) if sh else FieldDescriptor.scalar(dtype=build(f["nest"]), **vk)
    if "packed" in f:
        kw = dict(vk)
        if f.get("ud"):
            kw["unpacked_dtype"] = DT[f["ud"]]
        if "fill" in f:
            kw["fill_value"] = f["fill"]
        return FieldDescriptor.packed_tensor(shape=tuple(f["sh"]), packed_bits=f["packed"], **kw)
    kw = {}
    if f.get("bits") is not None:
        kw["bits"] = f["bits"]
    kw.update(vk)
    sh = tuple(f.get("sh", ()))
    fill = f.get("fill")
    if f.get("factory") is not None:
        kw["fill_value_factory"] = FACTORIES[f["factory"]]
    dt = DT[f["dt"]]
    if f.get("dtinst"):
        dt = jnp.dtype(dt)
    if sh or f.get("tensor"):
        return FieldDescriptor.tensor(dtype=dt, shape=sh, fill_value=fill, **kw)
    return FieldDescriptor.scalar(dtype=dt, default=fill, **kw)


def _count(shape, dtype):
    n = int(np.prod(shape)) if shape else 1
    return jnp.asarray((np.arange(n) % 2).reshape(shape)).astype(dtype)


def _rank(shape, dtype):
    return jnp.asarray(len(shape) % 2).astype(dtype)


FACTORIES = [_count, _rank]


def default_arrays(spec, batch):
    """{path: array} of the documented default contents."""
    out = {}
    for path, f, lead in leaves(spec):
        sh, dt = tuple(batch) + leaf_shape(f, lead), leaf_dtype(f)
        if "packed" in f:
            v = f.get("fill", 0)
        elif f.get("factory") is not None:
            v = np.asarray(FACTORIES[f["factory"]](sh, dt))
        elif f.get("fill") is not None:
            v = f["fill"]
        else:
            v = False if dt == bool else np.iinfo(dt).max if dt.kind == "u" else 0 if dt.kind == "i" else np.inf
        out[path] = np.broadcast_to(np.asarray(v).astype(dt), sh).copy()
    return out


def build(spec, extra=None):
    """The class for a spec (cached).  `extra` is a dict of attributes set on the class body; it has its own cache key."""
    key = json.dumps(spec, sort_keys=True) + (extra["__key__"] if extra else "")
    if key in _cache:
        return _cache[key]
    name = spec.get("name") or class_name(spec)
    ann = {}
    for fname, f in spec["fields"]:
        d = descriptor(f)
        ann[fname] = Annotated[np.ndarray, d] if f.get("annotated") else d
    body = {"__annotations__": ann, "__module__": _MODNAME, "__qualname__": name}
    if extra:
        body.update({k: v for k, v in extra.items() if k != "__key__"})
    cls = type(name, (), body)
    opts = dict(spec.get("opts") or {})
    cls = xtructure_dataclass(**opts)(cls) if opts else xtructure_dataclass(cls)
    setattr(_mod, name, cls)
    _cache[key] = cls
    return cls


def leaves(spec, prefix=(), shape=()):
    """[(path, field, extra leading intrinsic shape from nesting)]"""
    out = []
    for name, f in spec["fields"]:
        if "nest" in f:
            out += leaves(f["nest"], prefix + (name,), shape + tuple(f.get("sh", ())))
        else:
            out.append((prefix + (name,), f, shape))
    return out


def leaf_shape(f, lead):
    """Full stored intrinsic shape of a leaf."""
    if "packed" in f:
        n = int(np.prod(f["sh"])) if f["sh"] else 1
        return tuple(lead) + (packed_len(n, f["packed"]),)
    return tuple(lead) + tuple(f.get("sh", ()))


def packed_len(n, bits):
    """Bytes of the block layout: whole blocks of lcm(bits, 8) bits."""
    if n == 0:
        return 0
    block = int(np.lcm(bits, 8))
    per = block // bits
    return -(-n // per) * (block // 8) if bits not in (1, 2, 4, 8) else -(-n * bits // 8)


def leaf_dtype(f):
    return np.dtype(np.uint8) if "packed" in f else npdt(f["dt"])


def get(obj, path):
    for p in path:
        obj = getattr(obj, p)
    return obj


def to_np(spec, obj):
    """{path: numpy array} by attribute access along the declaration."""
    return {path: np.asarray(get(obj, path)) for path, _, _ in leaves(spec)}


def from_np(spec, arrays, prefix=(), cls=None):
    cls = cls or build(spec)
    kw = {}
    for name, f in spec["fields"]:
        path = prefix + (name,)
        kw[name] = from_np(f["nest"], arrays, path) if "nest" in f else jnp.asarray(arrays[path])
    return cls(**kw)


def _mix(x):
    x = np.asarray(x, dtype=np.uint64)
    with np.errstate(over="ignore"):
        x = (x ^ (x >> np.uint64(33))) * np.uint64(0xFF51AFD7ED558CCD)
        x = (x ^ (x >> np.uint64(33))) * np.uint64(0xC4CEB9FE1A85EC53)
        x = x ^ (x >> np.uint64(33))
    return x


def _to_dtype(bits64, f):
    """Map 64 hashed bits to an in-range value of the leaf (finite floats, no -0.0)."""
    if "packed" in f:
        return (bits64 & np.uint64(255)).astype(np.uint8)
    dt = f["dt"]
    if dt == "bool":
        return (bits64 & np.uint64(1)).astype(np.bool_)
    if dt.startswith("uint") or dt.startswith("int"):
        w = f.get("bits") or npdt(dt).itemsize * 8
        v = bits64 & np.uint64((1 << w) - 1)
        if dt.startswith("int") and not f.get("bits"):
            return v.astype(f"uint{w}").view(npdt(dt))
        return v.astype(npdt(dt))
    span = {"float16": 2048, "bfloat16": 256, "float32": 1 << 22, "float64": 1 << 48}[dt]
    v = (bits64 % np.uint64(span)).astype(np.int64) - span // 2
    return (v.astype(np.float64) / 4.0 + 0.0).astype(npdt(dt))


def arrays(spec, batch, salt=0):
    """Hashed content: every element of every leaf depends on (leaf, position, salt); {path: array}."""
    out = {}
    for li, (path, f, lead) in enumerate(leaves(spec)):
        full = tuple(batch) + leaf_shape(f, lead)
        n = int(np.prod(full)) if full else 1
        idx = np.arange(n, dtype=np.uint64) + np.uint64(li * 1000003 + salt * 7919 * 1000003 + 12345)
        out[path] = np.asarray(_to_dtype(_mix(idx), f)).reshape(full)
    return out


def instance(spec, batch, salt=0):
    return from_np(spec, arrays(spec, batch, salt))


def rows_arrays(spec, codes):
    """Rows determined by integer codes (equal codes: equal rows).  Distinctness is up to the caller (see distinct_codes)."""
    codes = np.asarray(codes, dtype=np.int64)
    out = {}
    for li, (path, f, lead) in enumerate(leaves(spec)):
        sh = leaf_shape(f, lead)
        n = int(np.prod(sh)) if sh else 1
        pos = np.arange(n, dtype=np.uint64) + np.uint64(li * 4099)
        # small codes give near-equal rows: a code is split into (base, delta); delta changes exactly one position
        base = (codes // 8).astype(np.uint64)
        v = _mix(pos[None, :] * np.uint64(2654435761) + base.reshape(-1, 1) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(17))
        out[path] = np.asarray(_to_dtype(v, f)).reshape(codes.shape + sh)
    delta = (codes % 8).reshape(-1)
    flat_pos = []
    for path, f, lead in leaves(spec):
        n = int(np.prod(leaf_shape(f, lead))) if leaf_shape(f, lead) else 1
        flat_pos += [(path, f, i) for i in range(n)]
    for r, d in enumerate(delta):
        if d == 0:
            continue
        k = (int(d) * 2654435761) % len(flat_pos)
        path, f, i = flat_pos[k]
        arr = out[path].reshape((codes.size, -1))
        v = arr[r, i]
        if arr.dtype == np.bool_:
            arr[r, i] = not v
        elif "packed" in f or f["dt"].startswith(("uint", "int")):
            w = 8 if "packed" in f else (f.get("bits") or npdt(f["dt"]).itemsize * 8)
            bit = int(d) % w
            u = arr[r:r + 1, i:i + 1].view(f"uint{arr.dtype.itemsize * 8}")
            u ^= np.array(1 << bit, dtype=u.dtype)
        else:
            arr[r, i] = (np.float64(v) + d).astype(arr.dtype) if f["dt"] != "bfloat16" else npdt("bfloat16").type(float(v) + 16 * d)
        out[path] = arr.reshape(out[path].shape)
    return out


def row_key(arrs, r):
    """Bytes identifying row r."""
    return b"|".join(np.ascontiguousarray(a[r]).tobytes() for a in arrs.values())


def same(a, b):
    """Bit-for-bit equality of {path: array}; returns None or a description of the difference."""
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.dtype != y.dtype:
            return f"{'.'.join(k)}: dtype {y.dtype}, expected {x.dtype}"
        if x.shape != y.shape:
            return f"{'.'.join(k)}: shape {y.shape}, expected {x.shape}"
        if x.tobytes() != y.tobytes():
            bad = np.argwhere(np.ascontiguousarray(x).reshape(-1).view(np.uint8).reshape(x.size, -1)
                              != np.ascontiguousarray(y).reshape(-1).view(np.uint8).reshape(x.size, -1))
            i = np.unravel_index(int(bad[0][0]), x.shape) if x.shape else ()
            return f"{'.'.join(k)}{list(map(int, i))}: got {y[i]!r}, expected {x[i]!r}"
    return None


# ---------------------------------------------------------------- fixed pools used by the data-structure checks
def P(dt, *sh, **kw):
    return {"dt": dt, "sh": list(sh), **kw}


POOL = [
    {"fields": [["a", P("uint8")], ["b", P("uint32", 1, 2)]]},
    {"fields": [["v", P("uint32")]]},
    {"fields": [["flag", P("bool", 3)], ["x", P("int16", 2)], ["y", P("float32")]]},
    {"fields": [["n", {"nest": {"fields": [["p", P("uint8", 2)], ["q", P("uint32")]]}, "sh": []}], ["w", P("int32", 3)]]},
    {"fields": [["m", P("float32", 2, 2)], ["k", P("uint16")]]},
    {"fields": [["s", P("uint8", 5)]]},
    {"fields": [["wide", P("uint32", 7)], ["z", P("int8", 3)]]},
    {"fields": [["bits", P("uint8", 5, bits=3)], ["on", P("bool", 9, bits=1)]]},
    {"fields": [["h", P("float16")], ["n", {"nest": {"fields": [["u", P("uint32", 2)], ["n2", {"nest": {"fields": [["t", P("uint8")]]}, "sh": []}]]}, "sh": []}]]},
    {"fields": [["tile", {"packed": 3, "sh": [2, 3]}], ["c", P("uint32")]]},
    {"fields": [["arr", {"nest": {"fields": [["i", P("uint16")], ["j", P("bool", 2)]]}, "sh": [3]}], ["g", P("int32")]]},
    {"fields": [["bf", P("bfloat16", 2)], ["u", P("uint16", 3)]]},
    {"fields": [["wide", P("uint32", 8)], ["fl", P("float32", 3)]]},
]

WIDER = {"uint32": "uint64", "int16": "int64", "int32": "int64", "float32": "float64", "float16": "float64", "uint16": "uint64"}


def widened(spec):
    def one(f):
        if "nest" in f:
            return {**f, "nest": widened(f["nest"])}
        return f if "packed" in f or "bits" in f else {**f, "dt": WIDER.get(f["dt"], f["dt"])}
    return {**spec, "fields": [[n, one(f)] for n, f in spec["fields"]]}


if X64:
    POOL = [widened(s) if i % 4 else s for i, s in enumerate(POOL)]


def distinct_codes(spec, n, limit=64):
    """n codes whose rows are pairwise different (codes below `limit`), in a fixed order."""
    key = (json.dumps(spec, sort_keys=True), n)
    if key in _cache:
        return _cache[key]
    cand = np.arange(max(limit, 8 * n))
    a = rows_arrays(spec, cand)
    seen, out = set(), []
    for i in range(len(cand)):
        k = row_key(a, i)
        if k not in seen:
            seen.add(k)
            out.append(int(cand[i]))
            if len(out) == n:
                break
    _cache[key] = out
    return out


# ---------------------------------------------------------------- random layouts and contents
PRIM = ["bool", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "bfloat16", "float32"]
if X64:  # sub-checks with this switch also draw 64-bit fields
    PRIM = PRIM + ["uint64", "int64", "float64"]
SHAPES = [[], [], [], [1], [2], [3], [5], [1, 2], [2, 2], [3, 2], [2, 1, 2], [0], [2, 0]]
UINT = {"bool": 1, "uint8": 8, "uint16": 16, "uint32": 32}


def spec_strategy(depth=2, dtypes=PRIM, shapes=SHAPES, packed=True, bits=True, max_fields=4, nest_shapes=([], [], [2], [], [2, 1], [3]), min_fields=1, fills=False):
    """Random layouts as JSON."""
    from hypothesis import strategies as st

    def prim():
        def finish(t):
            dt, sh, b, fl, fac = t
            f = {"dt": dt, "sh": sh}
            if b is not None and dt in UINT:
                f["bits"] = 1 + b % UINT[dt]
            if fl is not None and fills:
                w = f.get("bits") or npdt(dt).itemsize * 8
                if dt == "bool":
                    f["fill"] = bool(fl % 2)
                elif dt.startswith("uint"):
                    f["fill"] = fl % (1 << min(w, 31))
                elif dt.startswith("int"):
                    f["fill"] = fl % 200 - 100
                else:
                    f["fill"] = (fl % 200 - 100) / 4
            if fac is not None and fills and "fill" not in f:
                f["factory"] = fac
            return f
        b = st.one_of(st.none(), st.none(), st.integers(0, 31)) if bits else st.none()
        return st.tuples(st.sampled_from(dtypes), st.sampled_from(shapes), b, st.one_of(st.none(), st.integers(0, 300)),
                         st.sampled_from([None, None, 0, 1]) if fills else st.none()).map(finish)

    def pk():
        return st.tuples(st.sampled_from([1, 2, 3, 4, 5, 7, 8, 12]), st.sampled_from([[5], [2, 3], [9], []])).map(
            lambda t: {"packed": t[0], "sh": t[1]})

    def spec(d):
        opts = [prim(), prim(), prim(), prim()]
        if packed:
            opts.append(pk())
        if d > 0:
            opts.append(st.tuples(spec(d - 1), st.sampled_from(list(nest_shapes))).map(lambda t: {"nest": t[0], "sh": t[1]}))
        few = st.lists(st.one_of(*opts), min_size=min_fields, max_size=max_fields)
        if d == depth and max_fields >= 4:  # some layouts have many fields
            few = st.one_of(few, few, few, few, few, st.lists(prim(), min_size=6, max_size=len(NAMES)))
        return st.tuples(few, st.sampled_from([NAMES] * 4 + [PARAMETER_NAMES])).map(
            lambda t: {"fields": [[t[1][i], f] for i, f in enumerate(t[0])]})
    return spec(depth)


NAMES = ["x1", "b", "delta_2", "alpha", "count", "zeta", "g", "A_", "m10", "m9", "k", "Z", "a_rather_long_field_name"]  # not in alphabetical order
# names that the library or the functions it calls use for parameters of their own
PARAMETER_NAMES = ["file", "key", "allow_pickle", "axis", "words", "x", "arrays", "name", "index", "fill_value", "cls", "batch_size", "path"]


def raw_arrays(spec, batch, salt=0):
    """Like arrays(), but floats are arbitrary bit patterns (NaN, infinities, -0.0, denormals) mixed with special values."""
    out = {}
    for li, (path, f, lead) in enumerate(leaves(spec)):
        full = tuple(batch) + leaf_shape(f, lead)
        n = int(np.prod(full)) if full else 1
        v = _mix(np.arange(n, dtype=np.uint64) + np.uint64(li * 1000003 + salt * 104729 * 1000003 + 777))
        if "packed" in f or not f["dt"].startswith(("float", "bfloat")):
            a = np.asarray(_to_dtype(v, f))
            if "dt" in f and f["dt"] != "bool":
                w = f.get("bits") or npdt(f["dt"]).itemsize * 8
                ext = (v >> np.uint64(60)) == 0  # 1 in 16: extreme values
                hi = np.uint64((1 << (w if f["dt"].startswith("u") else w - 1)) - 1)
                a = np.where(ext & (v % 2 == 0), hi.astype(a.dtype), a)
                if f["dt"].startswith("int"):
                    a = np.where(ext & (v % 2 == 1), np.iinfo(a.dtype).min, a).astype(a.dtype)
        else:
            w = npdt(f["dt"]).itemsize
            a = (v >> np.uint64(8)).astype(f"uint{8 * w}").view(npdt(f["dt"]))
            special = np.asarray([0.0, -0.0, np.inf, -np.inf, np.nan, 1.0], dtype=np.float32).astype(npdt(f["dt"]))
            pick = (v >> np.uint64(59)) < 6
            a = np.where(pick, special[(v % 6).astype(int)], a).astype(npdt(f["dt"]))
        out[path] = np.asarray(a).reshape(full)
    return out


def depth_of(spec):
    return 1 + max([0] + [depth_of(f["nest"]) for _, f in spec["fields"] if "nest" in f])


def tags(spec):
    """Labels describing a layout."""
    out = set()
    for path, f, lead in leaves(spec):
        out.add("packed" if "packed" in f else f["dt"])
        if f.get("bits"):
            out.add("bits")
        if lead:
            out.add("nested array")
        if len(path) > 1:
            out.add("nested")
    return out
