"""P18: instances are faithful pytrees under every JAX transformation."""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax import lax

from pbt import layouts as L
from pbt.common import check, Sub, x64
from xtructure import base_dataclass

RULE = ("random layouts (nesting to depth 3) x batch shapes x chains of 2-5 transformations out of flatten/unflatten, path flattening, tree_map, jit, vmap "
        "over any batch axis, scan, cond, while, fori, device transfer, copy, deepcopy, pickle, replace, tuple conversion, eval_shape; "
        "non-trivial: two or more leaves and two or more different transformations")
BATCHES = [[], [1], [3], [2, 3], [4], [2, 1, 2], [3, 2]]
STEPS = ["unflatten", "path", "map", "map2", "jit", "jit_change", "vmap", "vmap_axis", "scan", "scan_carry", "cond", "while", "fori", "device", "copy", "deepcopy", "pickle",
         "replace", "rebatch", "rebatch", "tuple", "eval_shape", "switch", "inner_replace"]


def strategy(shard):
    return st.fixed_dictionaries({"spec": st.one_of(L.spec_strategy(max_fields=3, min_fields=2), L.spec_strategy(max_fields=3)), "batch": st.sampled_from(BATCHES),
                                  "salt": st.integers(0, 10 ** 6), "touch": st.booleans(),
                                  "steps": st.lists(st.tuples(st.sampled_from(STEPS), st.integers(0, 1000)).map(list), min_size=2, max_size=5)})


def flip(v):
    """A dtype-preserving change that every leaf type supports (library-independent)."""
    return jnp.logical_not(v) if v.dtype == jnp.bool_ else (v ^ jnp.asarray(1, v.dtype) if jnp.issubdtype(v.dtype, jnp.integer) else -v)


def npflip(v):
    return ~v if v.dtype == bool else (v ^ np.asarray(1, v.dtype) if v.dtype.kind in "ui" else -v)


def apply(step, k, spec, cls, x, model, batch):
    """Returns (instance, model arrays, batch)."""
    tu = jax.tree_util
    lv = L.leaves(spec)
    if step == "unflatten":
        leaves, treedef = tu.tree_flatten(x)
        check(len(leaves) == len(lv), "flattening gives {} leaves, {} declared", len(leaves), len(lv))
        for got, (p, _, _) in zip(leaves, lv):
            d = L.same({p: model[p]}, {p: np.asarray(got)})
            check(d is None, "leaf order: {}", d)
        return tu.tree_unflatten(treedef, leaves), model, batch
    if step == "path":
        pl, treedef = tu.tree_flatten_with_path(x)
        names = [tuple(key.name for key in path) for path, _ in pl]
        check(names == [p for p, _, _ in lv], "leaf paths are {}, declared {}", names, [p for p, _, _ in lv])
        check(treedef == tu.tree_structure(x), "path flattening gives another tree structure")
        seen = []
        y = tu.tree_map_with_path(lambda path, a, b: (seen.append(tuple(key.name for key in path)), jnp.where(k % 2 == 0, a, b))[1], x, tu.tree_map(flip, x))
        check(sorted(seen) == sorted(names), "a path-aware map visits {}, declared {}", seen, names)
        d = L.same(model if k % 2 == 0 else {p: npflip(v) for p, v in model.items()}, L.to_np(spec, y))
        check(d is None, "path-aware map over two instances: {}", d)
        return tu.tree_unflatten(treedef, [v for _, v in pl]), model, batch
    if step == "map":
        return tu.tree_map(flip, x), {p: npflip(v) for p, v in model.items()}, batch
    if step == "map2":
        y = tu.tree_map(flip, x)
        return tu.tree_map(lambda a, b: jnp.where(k % 2 == 0, a, b), x, y), model if k % 2 == 0 else {p: npflip(v) for p, v in model.items()}, batch
    if step == "jit":
        return jax.jit(lambda t: t)(x), model, batch
    if step == "jit_change":
        names = [n for n, f in spec["fields"] if "nest" not in f]
        if not names:
            return jax.jit(lambda t: t)(x), model, batch
        n = names[k % len(names)]
        y = jax.jit(lambda t: t.replace(**{n: flip(getattr(t, n))}))(x)
        return y, {p: npflip(v) if p == (n,) else v for p, v in model.items()}, batch
    if step == "vmap" and batch:
        return jax.vmap(lambda t: jax.tree_util.tree_map(flip, t))(x), {p: npflip(v) for p, v in model.items()}, batch
    if step == "vmap_axis" and len(batch) >= 1:
        i, o = k % len(batch), (k // 7) % len(batch)
        y = jax.vmap(lambda t: t, in_axes=i, out_axes=o)(x)
        return y, {p: np.moveaxis(v, i, o) for p, v in model.items()}, tuple(np.moveaxis(np.zeros(batch), i, o).shape)
    if step == "scan" and batch:
        _, y = lax.scan(lambda c, t: (c + 1, t), 0, x, reverse=bool(k % 2))
        return y, model, batch
    if step == "scan_carry" and batch:
        first = jax.tree_util.tree_map(lambda v: v[0], x)
        c, y = lax.scan(lambda c, t: (t, c), first, x)
        d = L.same({p: v[-1] for p, v in model.items()}, L.to_np(spec, c))
        check(d is None, "carry after scan: {}", d)
        return y, {p: np.concatenate([v[:1], v[:-1]]) for p, v in model.items()}, batch
    if step in ("cond", "switch"):
        t, f = jax.tree_util.tree_map(flip, x), x
        if step == "cond":
            y = lax.cond(jnp.asarray(k % 2 == 0), lambda a, b: a, lambda a, b: b, t, f)
        else:
            y = lax.switch(k % 2, [lambda a, b: a, lambda a, b: b], t, f)
        return y, {p: npflip(v) for p, v in model.items()} if k % 2 == 0 else model, batch
    if step in ("while", "fori"):
        n = k % 4
        if step == "while":
            _, y = lax.while_loop(lambda s: s[0] < n, lambda s: (s[0] + 1, jax.tree_util.tree_map(flip, s[1])), (0, x))
        else:
            y = lax.fori_loop(0, n, lambda i, t: jax.tree_util.tree_map(flip, t), x)
        return y, {p: npflip(v) for p, v in model.items()} if n % 2 else model, batch
    if step == "device":
        return jax.device_put(jax.device_get(x) if k % 2 else x, jax.devices()[0]), model, batch
    if step == "copy":
        y = copy.copy(x)
        check(y is not x, "copy.copy returned the same object")
        return y, model, batch
    if step == "deepcopy":
        return copy.deepcopy(x), model, batch
    if step == "pickle":
        return pickle.loads(pickle.dumps(x, protocol=2 + k % 4)), model, batch
    if step == "replace":
        n, f = spec["fields"][k % len(spec["fields"])]
        y = x.replace(**{n: jax.tree_util.tree_map(flip, getattr(x, n))})
        return y, {p: npflip(v) if p[0] == n else v for p, v in model.items()}, batch
    if step == "rebatch":  # replacement by arrays of another batch shape
        sel = (lambda v: v[None]) if k % 3 == 0 or not batch else (lambda v: v[:1]) if k % 3 == 1 else (lambda v: v[0])
        y = x.replace(**{n: jax.tree_util.tree_map(sel, getattr(x, n)) for n, _ in spec["fields"]})
        return y, {p: sel(v) for p, v in model.items()}, sel(np.zeros(batch)).shape
    if step == "inner_replace":
        nested = [(n, f) for n, f in spec["fields"] if "nest" in f]
        if not nested:
            return x.replace(), model, batch
        n, f = nested[k % len(nested)]
        inner = getattr(x, n)
        m = f["nest"]["fields"][k % len(f["nest"]["fields"])][0]
        y = x.replace(**{n: inner.replace(**{m: jax.tree_util.tree_map(flip, getattr(inner, m))})})
        return y, {p: npflip(v) if p[:2] == (n, m) else v for p, v in model.items()}, batch
    if step == "tuple":
        t = x.to_tuple()
        check(len(t) == len(spec["fields"]) and all(a is getattr(x, n) for a, (n, _) in zip(t, spec["fields"])), "to_tuple does not hold the fields in order")
        return cls.from_tuple(t), model, batch
    if step == "eval_shape":
        s = jax.eval_shape(lambda t: jax.tree_util.tree_map(flip, t), x)
        check(type(s) is cls, "eval_shape returned a {}", type(s))
        for p, v in model.items():
            got = L.get(s, p)
            check(got.shape == v.shape and got.dtype == v.dtype, "eval_shape: {} is {} {}", p, got.dtype, got.shape)
        return x, model, batch
    return x, model, batch


def run(case):
    spec, batch = case["spec"], tuple(case["batch"])
    cls = L.build(spec)
    model = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, model)
    ref_def = jax.tree_util.tree_structure(x)
    labels = set()
    for step, k in case["steps"]:
        if case["touch"]:  # fill the caches of the instance: they must not leak into the tree
            x.shape, x.dtype, x.structured_type
        before = {p: v.copy() for p, v in model.items()}
        old, oldbatch = x, batch
        x, model, batch = apply(step, k, spec, cls, x, model, batch)
        check(type(x) is cls, "{} returned a {}", step, type(x))
        for p, f, _ in L.leaves(spec):
            check(type(L.get(x, p[:-1])) is type(L.get(old, p[:-1])), "{}: {} is a {}", step, p[:-1], type(L.get(x, p[:-1])))
        d = L.same(model, L.to_np(spec, x))
        check(d is None, "{}({}): {}", step, k, d)
        d = L.same(before, L.to_np(spec, old))
        check(d is None, "{} changed its operand: {}", step, d)
        check(jax.tree_util.tree_structure(x) == ref_def, "{} changed the tree structure: {} against {}", step, jax.tree_util.tree_structure(x), ref_def)
        check(tuple(x.shape.batch) == tuple(batch), "{}: batch shape {}, expected {}", step, x.shape.batch, batch)
        check(tuple(old.shape.batch) == tuple(oldbatch), "{}: operand now reports batch shape {}", step, old.shape.batch)
        labels.add(step)
    return len(model) > 1 and len(labels) > 1, sorted(labels)


# ---------------------------------------------------------------- static fields of plain pytree dataclasses
STATIC_RULE = ("plain dataclasses with 1-3 array fields and 0-2 static fields in any order, static values ints / strings / tuples; flatten, jit cache and "
               "transformation behaviour; non-trivial: at least one static field")
_static_cache = {}


def static_strategy(shard):
    return st.fixed_dictionaries({"kinds": st.lists(st.sampled_from(["arr", "arr", "int", "str", "tuple"]), min_size=1, max_size=5),
                                  "values": st.lists(st.integers(0, 6), min_size=8, max_size=8), "salt": st.integers(0, 1000)})


def static_class(kinds):
    key = tuple(kinds)
    if key not in _static_cache:
        ann = {f"{k}{i}": (jax.Array if k == "arr" else {"int": int, "str": str, "tuple": tuple}[k]) for i, k in enumerate(kinds)}
        cls = type("Static" + "_".join(kinds), (), {"__annotations__": ann, "__module__": L._MODNAME})
        cls = base_dataclass(cls, static_fields=tuple(n for n, k in zip(ann, kinds) if k != "arr"))
        setattr(L._mod, cls.__name__, cls)
        _static_cache[key] = (cls, list(ann))
    return _static_cache[key]


def run_static(case):
    kinds = case["kinds"]
    cls, names = static_class(kinds)

    def make(values, salt):
        kw = {}
        for i, (n, k) in enumerate(zip(names, kinds)):
            v = values[i % len(values)]
            kw[n] = {"arr": lambda: jnp.arange(3, dtype=jnp.float32) * (i + 1) + salt, "int": lambda: v, "str": lambda: f"s{v}", "tuple": lambda: (v, f"t{v}")}[k]()
        return cls(**kw)
    x = make(case["values"], case["salt"])
    static = [n for n, k in zip(names, kinds) if k != "arr"]
    arrs = [n for n, k in zip(names, kinds) if k == "arr"]
    leaves, treedef = jax.tree_util.tree_flatten(x)
    check(len(leaves) == len(arrs), "{} leaves for {} array fields", len(leaves), len(arrs))
    for l, n in zip(leaves, arrs):
        check(np.array_equal(l, getattr(x, n)), "leaf order broken at {}", n)
    pl, td2 = jax.tree_util.tree_flatten_with_path(x)
    check([tuple(k.name for k in p) for p, _ in pl] == [(n,) for n in arrs] and td2 == treedef, "path flattening disagrees")
    calls = []

    @jax.jit
    def f(t):
        calls.append(1)
        total = jnp.float32(0)
        for n in arrs:
            total = total + getattr(t, n).sum()
        for j, n in enumerate(static):
            v = getattr(t, n)
            check(isinstance(v, (int, str, tuple)) and not isinstance(v, jax.Array), "static field {} is a {} while tracing", n, type(v))
            total = total + (j + 1) * (v if isinstance(v, int) else len(str(v)) + sum(map(ord, str(v))))
        return total, t

    def expect(t):
        return sum(float(np.asarray(getattr(t, n)).sum()) for n in arrs) + sum(
            (j + 1) * (v if isinstance(v, int) else len(str(v)) + sum(map(ord, str(v)))) for j, v in enumerate(getattr(t, n) for n in static))
    versions = {}
    for shift in (0, 1, 0, 3, 1):
        y = make([(v + shift) % 7 for v in case["values"]], case["salt"] + shift)
        skey = repr([getattr(y, n) for n in static])
        before = len(calls)
        got, back = f(y)
        check(abs(float(got) - expect(y)) < 1e-2, "jitted function with static fields {} returned {}, expected {}", skey, float(got), expect(y))
        check((len(calls) == before) == (skey in versions), "equal static fields must share a program, different ones must not ({} traces, seen {})", len(calls), sorted(versions))
        versions[skey] = 1
        check(type(back) is cls and all(getattr(back, n) == getattr(y, n) and type(getattr(back, n)) is type(getattr(y, n)) for n in static), "static fields changed by jit")
        check((jax.tree_util.tree_structure(y) == treedef) == all(getattr(y, n) == getattr(x, n) for n in static), "tree structure equality ignores static fields")
    for y in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x)), jax.tree_util.tree_map(lambda v: v, x), x.replace(),
              jax.vmap(lambda t: t, in_axes=0)(x) if arrs else x, cls.from_tuple(x.to_tuple())):
        check(type(y) is cls and all(getattr(y, n) == getattr(x, n) for n in static), "static fields not preserved: {!r}", y)
        check(all(np.array_equal(getattr(y, n), getattr(x, n)) for n in arrs), "array fields not preserved: {!r}", y)
    if static:
        y = x.replace(**{static[0]: 99})
        check(getattr(y, static[0]) == 99 and getattr(x, static[0]) != 99, "replace of a static field")
    return bool(static), [f"{len(static)} static"]


SUBS = [Sub("transform", strategy, run, quick=1300, shards=7, rule=RULE),
        Sub("static", static_strategy, run_static, quick=120, shards=1, rule=STATIC_RULE)]
SUBS += x64(SUBS, transform=150, static=30)
