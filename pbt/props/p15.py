"""P15: construction, defaults, random instances and shape reporting match the declaration."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, x64
from xtructure import StructuredType

BATCHES = [[], [], [1], [3], [4], [2, 3], [0], [2, 1, 2], [5]]
DEFAULT_RULE = ("random layouts (10 dtypes, shapes of rank 0-3, nesting to depth 3, nested arrays, packed fields, declared fills and fill "
                "factories) x batch shapes of rank 0-3; non-trivial: two or more leaves")


def types_of(spec):
    """Nested tuple of declared field dtypes."""
    return tuple(types_of(f["nest"]) if "nest" in f else L.leaf_dtype(f) for _, f in spec["fields"])


def check_report(spec, x, batch, what):
    """Everything the instance reports about itself, for a structured instance with batch shape `batch`."""
    batch = tuple(batch)

    def shape_ok(spec, sh, inner, where):
        check(tuple(sh.batch) == tuple(inner), "{}: shape{}.batch is {}, expected {}", what, where, sh.batch, inner)
        check(sh._fields == ("batch",) + tuple(n for n, _ in spec["fields"]), "{}: shape{} has the fields {}", what, where, sh._fields)
        for name, f in spec["fields"]:
            got = getattr(sh, name)
            if "nest" in f:
                shape_ok(f["nest"], got, tuple(f.get("sh", ())), where + "." + name)
            else:
                check(tuple(got) == L.leaf_shape(f, ()), "{}: shape{}.{} is {}, expected {}", what, where, name, got, L.leaf_shape(f, ()))

    def dtype_ok(spec, dt, where):
        check(dt._fields == tuple(n for n, _ in spec["fields"]), "{}: dtype{} has the fields {}", what, where, dt._fields)
        for name, f in spec["fields"]:
            got = getattr(dt, name)
            if "nest" in f:
                dtype_ok(f["nest"], got, where + "." + name)
            else:
                check(np.dtype(got) == L.leaf_dtype(f), "{}: dtype{}.{} is {}, expected {}", what, where, name, got, L.leaf_dtype(f))

    for _ in range(2):  # the second reading may come from a cache
        shape_ok(spec, x.shape, batch, "")
        dtype_ok(spec, x.dtype, "")
        check(tuple(x.batch_shape) == batch, "{}: batch_shape is {}, expected {}", what, x.batch_shape, batch)
        check(x.ndim == len(batch), "{}: ndim is {}, expected {}", what, x.ndim, len(batch))
        check(len(x) == (batch[0] if batch else 1), "{}: len is {}, batch shape {}", what, len(x), batch)
        want = StructuredType.BATCHED if batch else StructuredType.SINGLE
        check(x.structured_type == want, "{}: structured_type is {}, batch shape {}", what, x.structured_type, batch)


def default_strategy(shard):
    return st.fixed_dictionaries({"spec": L.spec_strategy(fills=True), "batch": st.sampled_from(BATCHES),
                                  "how": st.sampled_from(["plain", "plain", "keyword", "jit"])})


def run_default(case):
    spec, batch = case["spec"], tuple(case["batch"])
    cls = L.build(spec)
    if case["how"] == "jit":
        x = jax.jit(lambda: cls.default(batch))()
    elif case["how"] == "keyword":
        x = cls.default(shape=batch)
    else:
        x = cls.default(batch) if batch else cls.default()
    want = L.default_arrays(spec, batch)
    d = L.same(want, L.to_np(spec, x))
    check(d is None, "default{}: {}", batch, d)
    check(type(x) is cls, "default returned a {}", type(x))
    check_report(spec, x, batch, f"default{batch}")
    for name, f in spec["fields"]:
        sh = tuple(f.get("sh", ())) if "nest" in f else L.leaf_shape(f, ())
        check(tuple(getattr(cls.default_shape, name)) == sh, "default_shape.{} is {}, declared {}", name, getattr(cls.default_shape, name), sh)
        check(tuple(getattr(x.default_shape, name)) == sh, "instance default_shape.{} is {}, declared {}", name, getattr(x.default_shape, name), sh)
        if "nest" not in f:
            check(np.dtype(getattr(cls.default_dtype, name)) == L.leaf_dtype(f), "default_dtype.{} is {}", name, getattr(cls.default_dtype, name))
    # a fresh default instance is not influenced by earlier ones
    return len(L.leaves(spec)) > 1, [f"rank {len(batch)}", *L.tags(spec)]


# ---------------------------------------------------------------- random instances
RANDOM_RULE = ("random layouts x batch shapes x keys; non-trivial: at least 64 integer elements in some leaf (so that the whole range must show), "
               "or two leaves of one dtype")


def random_strategy(shard):
    return st.fixed_dictionaries({"spec": L.spec_strategy(max_fields=3), "batch": st.sampled_from(BATCHES + [[70], [9, 8]]), "key": st.integers(0, 2 ** 31 - 1),
                                  "nokey": st.sampled_from([False, False, False, True])})


def run_random(case):
    spec, batch = case["spec"], tuple(case["batch"])
    cls = L.build(spec)
    key = jax.random.PRNGKey(0 if case["nokey"] else case["key"])
    keydata = np.asarray(key).copy()
    x = cls.random(batch) if case["nokey"] else cls.random(shape=batch, key=key)
    a = L.to_np(spec, x)
    b = L.to_np(spec, cls.random(batch, key=jnp.asarray(keydata)))
    d = L.same(a, b)
    check(d is None, "two random instances from one key differ: {}", d)
    other = L.to_np(spec, cls.random(batch, key=jax.random.PRNGKey(case["key"] + 1)))
    check_report(spec, x, batch, f"random{batch}")
    entropy, same_other, nontrivial = 0, True, False
    seen = {}
    for path, f, lead in L.leaves(spec):
        v, dt = a[path], L.leaf_dtype(f)
        check(v.shape == batch + L.leaf_shape(f, lead) and v.dtype == dt, "random: leaf {} is {} {}", path, v.dtype, v.shape)
        bits = 1 if dt == bool else min(8 * dt.itemsize, 7 if dt.kind not in "ui" else 32)
        entropy += bits * v.size
        same_other &= v.tobytes() == other[path].tobytes()
        if dt.kind in "ui" and v.size >= 64:
            nontrivial = True
            u = v.reshape(-1).view(f"uint{8 * dt.itemsize}")
            full = (1 << 8 * dt.itemsize) - 1
            check(int(np.bitwise_or.reduce(u)) == full and int(np.bitwise_and.reduce(u)) == 0, "random: leaf {} ({}) never uses some bits of its range", path, dt)
        elif dt == bool and v.size >= 64:
            check(v.any() and not v.all(), "random: boolean leaf {} is constant over {} elements", path, v.size)
        elif dt.kind not in "uib":
            f64 = v.astype(np.float64)
            check(np.isfinite(f64).all(), "random: leaf {} contains non-finite values", path)
            check(((f64 >= 0) & (f64 < 1)).all(), "random: leaf {} leaves [0, 1): {}", path, f64.min() if f64.size else None)
            if v.size >= 64:
                check(len(np.unique(f64)) > 8, "random: leaf {} is nearly constant", path)
        if v.size * bits >= 64 and dt != bool:
            other_path = seen.setdefault((dt.str, v.size, v.tobytes()), path)
            check(other_path == path, "random: leaves {} and {} carry the same data", other_path, path)
    if entropy >= 96:
        check(not same_other, "random: two different keys give the same instance")
    return nontrivial or len(L.leaves(spec)) > 1, [f"rank {len(batch)}", *L.tags(spec)]


# ---------------------------------------------------------------- classification of arbitrary (also inconsistent) instances
STRUCT_RULE = ("random layouts whose leaves get independently chosen leading shapes (also wrong intrinsic shapes), then in-place assignments of leaves "
               "followed by re-reading; non-trivial: at least two different leading shapes among the leaves")
LEADS = [[], [2], [3], [2, 3], [1]]


def struct_strategy(shard):
    return st.fixed_dictionaries({
        "spec": L.spec_strategy(max_fields=3, bits=False), "base": st.integers(0, 4),
        "leads": st.lists(st.sampled_from([-1, -1, -1, -1, -1, -1, 0, 1, 2, 3, 4, 5]), min_size=12, max_size=12),
        "assign": st.lists(st.tuples(st.integers(0, 11), st.integers(-1, 5)).map(list), max_size=3)})


def leaf_array(f, lead, code, base):
    """Array for a leaf: leading shape LEADS[code] (base when -1; 5: wrong intrinsic shape)."""
    batch = LEADS[base] if code in (-1, 5) else LEADS[code]
    sh = L.leaf_shape(f, ())
    if code == 5 and sh:
        sh = sh[:-1] + (sh[-1] + 1,)
    return np.zeros(tuple(batch) + tuple(lead) + sh, L.leaf_dtype(f))


def batch_model(spec, arrs, prefix=()):
    """Batch shape by the documented rule, or -1."""
    seen = []
    for name, f in spec["fields"]:
        path = prefix + (name,)
        if "nest" in f:
            b, sh = batch_model(f["nest"], arrs, path), tuple(f.get("sh", ()))
        else:
            b, sh = tuple(arrs[path].shape), L.leaf_shape(f, ())
        if b != -1 and sh:
            b = b[:-len(sh)] if len(b) >= len(sh) and b[-len(sh):] == sh else -1
        seen.append(b)
    return seen[0] if all(b == seen[0] for b in seen) else -1


def check_struct(spec, x, arrs, what):
    want = batch_model(spec, arrs)
    if want != -1:
        check_report(spec, x, want, what)
        return
    for _ in range(2):
        check(x.shape.batch == -1 and x.batch_shape == -1, "{}: batch shape {} reported for inconsistent fields {}", what, x.shape.batch, {".".join(k): v.shape for k, v in arrs.items()})
        check(x.structured_type == StructuredType.UNSTRUCTURED, "{}: classified {}", what, x.structured_type)
        for fn, name in ((len, "len"), (lambda v: v.ndim, "ndim")):
            try:
                r = fn(x)
            except TypeError:
                continue
            check(False, "{}: {} of an unstructured instance is {}", what, name, r)


def run_struct(case):
    spec = case["spec"]
    lv = L.leaves(spec)
    codes = case["leads"]
    arrs = {p: leaf_array(f, lead, codes[i % len(codes)], case["base"]) for i, (p, f, lead) in enumerate(lv)}
    x = L.from_np(spec, arrs)
    check_struct(spec, x, arrs, "as built")
    for k, code in case["assign"]:
        p, f, lead = lv[k % len(lv)]
        arrs[p] = leaf_array(f, lead, code, case["base"])
        setattr(L.get(x, p[:-1]), p[-1], jnp.asarray(arrs[p]))
        check_struct(spec, x, arrs, "after assigning " + ".".join(p))
    kinds = {tuple(a.shape[:1]) for a in arrs.values()}
    lab = "unstructured" if batch_model(spec, arrs) == -1 else "structured"
    return len(kinds) > 1, [lab, "assigned" if case["assign"] else "not assigned"]


SUBS = [Sub("default", default_strategy, run_default, quick=900, shards=4, rule=DEFAULT_RULE),
        Sub("random", random_strategy, run_random, quick=320, shards=4, rule=RANDOM_RULE),
        Sub("struct", struct_strategy, run_struct, quick=900, shards=4, rule=STRUCT_RULE)]
SUBS += x64(SUBS, default=150, random=60, struct=150)
