"""P22: selection picks the right element of every field."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import big, layouts as L
from pbt import plans
from pbt.common import check, Sub, x64
from pbt.props.p20 import free_of, specs
from pbt.props.p21 import compare, maybe_jit, unchanged
from xtructure import numpy as xnp

BATCHES = [[], [1], [3], [4], [2], [2, 3], [3, 3], [3, 1], [2, 2, 3], [0]]


def lift(m, a, r):
    """A batch-shaped array next to a leaf."""
    return np.asarray(m).reshape(np.shape(m) + (1,) * (a.ndim - r))


# ---------------------------------------------------------------- where
def where_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "seed": st.integers(0, 10 ** 6),
                                  "cond": st.sampled_from(["batch", "batch", "batch", "trailing", "unit", "scalar", "python", "wide"]),
                                  "y": st.sampled_from(["same", "same", "single", "scalar", "python", "array"]), "density": st.sampled_from([1, 2, 3]),
                                  "cdt": st.sampled_from(["bool", "bool", "int32"]), "jit": st.sampled_from([False, False, True])})


def run_where(case):
    spec, batch = case["spec"], tuple(case["batch"])
    rng = np.random.RandomState(case["seed"])
    r, free, lv = len(batch), free_of(spec), L.leaves(spec)
    a = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, a)
    shape = {"batch": batch, "trailing": batch[rng.randint(r + 1):] if r else (), "unit": tuple(d if rng.rand() < 0.5 else 1 for d in batch),
             "scalar": (), "python": (), "wide": batch}[case["cond"]]
    cond = rng.randint(0, case["density"] + 1, shape) > 0
    ranks = {L.leaf_shape(f, lead) for _, f, lead in lv}
    per_element = case["cond"] == "wide" and len(ranks) == 1
    if per_element:  # a condition of the common full shape of all fields decides every element
        cond = rng.randint(0, case["density"] + 1, batch + next(iter(ranks))) > 0
    arg = bool(cond) if case["cond"] == "python" else jnp.asarray(cond.astype(case["cdt"]))
    kind = case["y"]
    promoted = {p: v.dtype for p, v in a.items()}
    if kind in ("same", "single"):
        yb = batch if kind == "same" else ()
        b = L.arrays(spec, yb, case["salt"] + 1)
        y = L.from_np(spec, b)
        full = {p: np.broadcast_to(v.reshape((1,) * (a[p].ndim - v.ndim) + v.shape), a[p].shape) for p, v in b.items()}
    else:
        val = [0, 1, -1, 7, 2.5, True][case["seed"] % 6] if kind != "array" else np.asarray([1, 0, 5, 2.5], np.float32)[case["seed"] % 4]
        if kind == "array" and free:
            val = (np.arange(int(np.prod(batch))) % 5).astype(["int32", "uint8", "float32"][case["seed"] % 3]).reshape(batch)
        y = val if kind == "python" else jnp.asarray(val)
        dt = jnp.asarray(y).dtype
        promoted = {p: jnp.result_type(v.dtype, dt) for p, v in a.items()}
        full = {p: np.broadcast_to(lift(np.asarray(jnp.asarray(y)), a[p], r) if np.ndim(val) else np.asarray(jnp.asarray(y)), a[p].shape) for p in a}
    want = {}
    for p, v in a.items():
        c = np.broadcast_to(cond, v.shape) if per_element else np.broadcast_to(lift(np.broadcast_to(cond, batch), v, r), v.shape)
        want[p] = np.where(c, np.asarray(jnp.asarray(v).astype(promoted[p])), np.asarray(jnp.asarray(full[p]).astype(promoted[p])))
    z = maybe_jit(case, lambda c, v, w: xnp.where(c, v, w), arg, x, y) if case["cond"] != "python" and kind != "python" else xnp.where(arg, x, y)
    check(type(z) is type(x), "where gives class {}", type(z))
    d = L.same({p: w for p, w in want.items()}, L.to_np(spec, z))
    check(d is None, "where(cond {}, batch {}, {}): {}", cond.shape, batch, kind, d)
    unchanged(spec, [a], [x], "where")
    return bool(cond.any() and not cond.all()), [case["cond"], kind, "scalars" if free else "intrinsic"]


# ---------------------------------------------------------------- strict where
def strict_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from([b for b in BATCHES if b] + [[]]), "salt": st.integers(0, 10 ** 6), "seed": st.integers(0, 10 ** 6),
                                  "fault": st.sampled_from(["none", "none", "class", "shape y", "shape cond", "unit cond", "dtype", "scalar y", "structure", "unit y", "scalar cond", "cond field"]),
                                  "as": st.sampled_from(["array", "instance"]), "leaf": st.integers(0, 20), "jit": st.sampled_from([False, False, True])})


def bools(spec, batch, seed):
    """A condition instance with the structure of the class: one boolean per element of every leaf."""
    rng = np.random.RandomState(seed)
    return {p: rng.randint(0, 2, tuple(batch) + L.leaf_shape(f, lead)).astype(bool) for p, f, lead in L.leaves(spec)}


def run_strict(case):
    spec, batch, fault = case["spec"], tuple(case["batch"]), case["fault"]
    r, lv = len(batch), L.leaves(spec)
    a, b = L.arrays(spec, batch, case["salt"]), L.arrays(spec, batch, case["salt"] + 1)
    shapes = {L.leaf_shape(f, lead) for _, f, lead in lv}
    as_array = case["as"] == "array" and len(shapes) == 1
    cb = bools(spec, batch, case["seed"])
    first = next(iter(cb.values()))
    p = lv[case["leaf"] % len(lv)][0]
    x = L.from_np(spec, a)
    y, c = None, None
    if fault == "class":
        y = L.from_np(spec, b, cls=L.build({"fields": spec["fields"], "name": "Twin" + L.class_name(spec)}))
    elif fault in ("shape y", "unit y"):
        if fault == "unit y" and not r:
            return False, ["not applicable"]
        if fault == "unit y" and batch[0] == 1:
            return False, ["not applicable"]
        y = L.from_np(spec, L.arrays(spec, (1,) + batch[1:] if fault == "unit y" else (2,) + batch, 5))
    elif fault == "dtype":
        b = dict(b)
        b[p] = b[p].astype(np.float32 if b[p].dtype != np.float32 else np.int32)
        y = L.from_np(spec, b)
    elif fault == "scalar y":
        y = 0
    elif fault == "shape cond":
        c = jnp.asarray(np.zeros((2,) + first.shape, bool))
    elif fault == "unit cond":
        if not r or batch[0] == 1:
            return False, ["not applicable"]
        c = jnp.asarray(first[:1]) if batch[0] else jnp.asarray(np.ones((1,) + first.shape[1:], bool))
    elif fault == "scalar cond":
        if all(v.shape == () for v in a.values()):
            return False, ["not applicable"]
        c = [True, jnp.asarray(False)][case["seed"] % 2]
    elif fault == "structure":
        c = L.build({"fields": spec["fields"] + [["extra_", L.P("bool")]]}).default(batch)
    elif fault == "cond field":
        cb = dict(cb)
        if cb[p].size == 0 or cb[p].shape == ():
            return False, ["not applicable"]
        cb[p] = cb[p][:-1] if cb[p].shape[0] > 1 else np.repeat(cb[p], 2, axis=0)
        c = L.from_np(spec, cb)
    y = L.from_np(spec, b) if y is None else y
    c = (jnp.asarray(first) if as_array else L.from_np(spec, cb)) if c is None else c
    if fault != "none":
        try:
            z = xnp.where_no_broadcast(c, x, y)
        except (TypeError, ValueError):
            return True, ["refused " + fault]
        check(False, "where_no_broadcast accepted a faulty operand ({}): {}", fault, {k: v.shape for k, v in L.to_np(spec, z).items()})
    z = maybe_jit(case, lambda c, v, w: xnp.where_no_broadcast(c, v, w), c, x, y)
    compare(spec, x, {q: np.where(first if as_array else cb[q], a[q], b[q]) for q in a}, None, z, "where_no_broadcast")
    unchanged(spec, [a, b], [x, y], "where_no_broadcast")
    return any(v.any() and not v.all() for v in ([first] if as_array else cb.values())), ["accepted", case["as"] if as_array else "instance"]


# ---------------------------------------------------------------- take
def take_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from([[1], [3], [4], [7], [2, 3], [3, 4], [3, 1], [2, 3, 2], [300]]), "salt": st.integers(0, 10 ** 6),
                                  "seed": st.integers(0, 10 ** 6), "axis": st.integers(0, 30), "shape": st.sampled_from([[], [0], [1], [3], [5], [2, 2], [9]]),
                                  "mode": st.sampled_from([None, None, None, "clip", "wrap", "fill", "fill_value"]), "neg": st.booleans(), "flat": st.booleans(),
                                  "dt": st.sampled_from(["int32", "int32", "uint8", "int16"]), "along": st.booleans(), "jit": st.sampled_from([False, False, True])})


def run_take(case):
    spec, batch, mode = case["spec"], tuple(case["batch"]), case["mode"]
    if int(np.prod(batch)) >= 300 and len(L.leaves(spec)) > 4:
        return False, ["not applicable"]
    rng = np.random.RandomState(case["seed"])
    free, r = free_of(spec), len(batch)
    axis = case["axis"] % r
    n = batch[axis]
    ax = axis - r if free and case["neg"] else axis
    a = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, a)
    plan = np.arange(int(np.prod(batch))).reshape(batch)
    signed = not case["dt"].startswith("u")

    def draw(shape):
        lo, hi = (-n, n)
        if mode in ("clip", "wrap", "fill_value", "fill") and not case["along"]:
            lo, hi = {"clip": (-3, n + 3), "wrap": (-2 * n, 2 * n), "fill": (-n, n), "fill_value": (-n, n + 3)}[mode]
        idx = rng.randint(lo if signed else 0, hi, shape)
        return idx.astype(np.int32) if idx.size and idx.max() > np.iinfo(case["dt"]).max else idx.astype(case["dt"])
    if case["along"]:
        m = rng.randint(0, 5)
        shape = tuple(m if i == axis else (d if rng.rand() < 0.7 else 1) for i, d in enumerate(batch))
        idx = draw(shape)
        full = np.broadcast_to(idx, tuple(m if i == axis else d for i, d in enumerate(batch))).astype(np.int64)
        want = np.take_along_axis(plan, full, axis=axis)
        use_default = free and ax == -1
        kw = {"mode": "fill"} if free and mode == "fill" and shape == want.shape else {}
        z = maybe_jit(case, lambda v, i: xnp.take_along_axis(v, i, **kw) if use_default else xnp.take_along_axis(v, i, axis=ax, **kw), x, jnp.asarray(idx))
        compare(spec, x, plans.gather(a, batch, want), want.shape, z, f"take_along_axis(axis={ax}) idx {idx.shape} of batch {batch}")
        unchanged(spec, [a], [x], "take_along_axis")
        return want.size > 1, ["along", f"rank {r}"]
    idx = draw(case["shape"])
    if free and case["flat"] and mode is None:
        flat = rng.randint(0, plan.size, case["shape"]).astype(np.int32)
        want = np.take(plan, flat)
        z = maybe_jit(case, lambda v, i: xnp.take(v, i), x, jnp.asarray(flat))
        compare(spec, x, plans.gather(a, batch, want), want.shape, z, f"take without axis of batch {batch}")
        return want.size > 1, ["flat"]
    i64 = idx.astype(np.int64)
    kw, missing = {}, None
    if mode == "clip":
        i64, kw = np.clip(i64, 0, n - 1), {"mode": "clip"}
    elif mode == "wrap":
        i64, kw = i64 % n, {"mode": "wrap"}
    elif mode in ("fill", "fill_value"):
        kw = {"mode": "fill"} if mode == "fill" else {"mode": "fill", "fill_value": 1}
        missing = (i64 >= n) | (i64 < -n)
        i64 = np.where(missing, 0, i64)
    want = np.take(plan, i64, axis=axis)
    z = maybe_jit(case, lambda v, i: xnp.take(v, i, axis=ax, **kw), x, jnp.asarray(idx))
    exp = plans.gather(a, batch, want)
    if mode == "fill_value":
        for p, v in exp.items():
            m = missing.reshape(missing.shape + (1,) * (v.ndim - axis - missing.ndim))
            exp[p] = np.where(m, np.ones((), v.dtype), v)
    compare(spec, x, exp, want.shape, z, f"take({idx.tolist()}, axis={ax}, {kw}) of batch {batch}")
    unchanged(spec, [a], [x], "take")
    return want.size > 1, ["take", str(mode), f"indices rank {idx.ndim}"]


# ---------------------------------------------------------------- conditional scatter
def scatter_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from([[4], [3], [7], [1], [2, 3], [3, 3], [3, 2, 2], [300], [256], [20, 20], [13, 5, 6]]), "salt": st.integers(0, 10 ** 6),
                                  "seed": st.integers(0, 10 ** 6), "n": st.integers(0, 9), "tuple": st.booleans(), "depth": st.integers(1, 3), "density": st.sampled_from([1, 2, 3]),
                                  "value": st.sampled_from(["scalar", "single", "batched", "batched", "batched"]), "narrow": st.booleans(), "oob": st.booleans(),
                                  "dt": st.sampled_from(["int32", "int32", "uint8", "int8", "uint32"]), "array": st.booleans(), "rank2": st.booleans(), "jit": st.sampled_from([False, False, True])})


def run_scatter(case):
    spec, batch = case["spec"], tuple(case["batch"])
    if np.prod(batch) >= 256 and len(L.leaves(spec)) > 3:
        return False, ["not applicable"]
    rng = np.random.RandomState(case["seed"])
    a = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, a)
    depth = min(case["depth"], len(batch)) if case["tuple"] else 1
    ishape = (case["n"],)
    if case["rank2"] and case["value"] != "batched" and not case["tuple"]:
        ishape = (2, max(case["n"] // 2, 1))
    cap = [min(d, 3) if case["narrow"] else d for d in batch]
    idx = [rng.randint(0, cap[i] + (2 if case["oob"] and depth == 1 and not case["tuple"] and not case["narrow"] else 0), ishape) for i in range(depth)]
    dt = case["dt"]
    idx = [i.astype(np.int32 if i.size and i.max() > np.iinfo(dt).max else dt) for i in idx]
    cond = rng.randint(0, case["density"] + 1, ishape) > 0
    rest = batch[depth:]
    if case["value"] == "scalar":
        v = [0, 1, True][case["seed"] % 3]
        vals = {p: np.asarray(v).astype(w.dtype) for p, w in a.items()}
    else:
        vb = () if case["value"] == "single" else ishape + rest
        vals = L.arrays(spec, vb, case["salt"] + 3)
        v = L.from_np(spec, vals)
    want, dup, touched = {p: w.copy() for p, w in a.items()}, False, set()
    for u in np.ndindex(*ishape):
        t = tuple(int(i[u]) for i in idx)
        if cond[u] and t[0] < batch[0]:
            if t in touched:
                dup = True
                continue
            touched.add(t)
            for p in want:
                want[p][t] = vals[p][u] if case["value"] == "batched" else vals[p]
    jidx = tuple(jnp.asarray(i) for i in idx) if case["tuple"] else jnp.asarray(idx[0])
    what = f"update_on_condition({'tuple ' if case['tuple'] else ''}{[i.tolist() for i in idx]}, {cond.tolist()}, {case['value']}) of batch {batch}"
    if case["value"] == "scalar":
        z = maybe_jit(case, lambda w, i, c: xnp.update_on_condition(w, i, c, v), x, jidx, jnp.asarray(cond))
    else:
        z = maybe_jit(case, lambda w, i, c, s: xnp.update_on_condition(w, i, c, s), x, jidx, jnp.asarray(cond), v)
    compare(spec, x, want, batch, z, what)
    if case["array"]:  # the plain-array form, on one leaf
        p = L.leaves(spec)[case["seed"] % len(L.leaves(spec))][0]
        got = xnp.update_on_condition(jnp.asarray(a[p]), jidx, jnp.asarray(cond), jnp.asarray(vals[p]) if case["value"] != "scalar" else v)
        d = L.same({p: want[p]}, {p: np.asarray(got)})
        check(d is None, "array form of {}: {}", what, d)
    unchanged(spec, [a], [x], "update_on_condition")
    return dup and len(touched) < batch[0] ** depth, ["tuple" if case["tuple"] else "1-d", case["value"], "repeats" if dup else "no repeats"]


SUBS = [Sub("where", where_strategy, run_where, quick=800, shards=4,
            rule="random layouts x batch shapes x conditions (batch-shaped, broadcast along batch axes, scalar, full element shape) x other operand (instance, single, python or array scalar, array); "
                 "non-trivial: the condition is neither all true nor all false"),
        Sub("strict", strict_strategy, run_strict, quick=500, shards=2, rule="where_no_broadcast with array or instance conditions; single-fault operands (class, shape, unit axes, dtype, scalar, structure) must be "
            "refused; non-trivial: refused, or a mixed condition"),
        Sub("take", take_strategy, run_take, quick=700, shards=3, rule="take and take_along_axis on every axis, index ranks 0-2, modes, negative indices; oracle: NumPy on batch positions; non-trivial: more than one element"),
        Sub("scatter", scatter_strategy, run_scatter, quick=800, shards=4, rule="update_on_condition on instances and arrays with 1-d, 2-d and tuple indices with repeats, out-of-bounds, narrow index dtypes; oracle: loop, first true "
            "update wins; non-trivial: a repeated target with several true conditions")]
SUBS.append(Sub("huge", big.index_strategy, big.run_index, quick=80, thorough=1500, shards=2, rule=big.INDEX_RULE))
SUBS += x64(SUBS, where=150, take=120, scatter=150)
