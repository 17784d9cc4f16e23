"""P25: elementwise fills and type conversions reach every field exactly."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, x64
from xtructure import numpy as xnp

BATCHES = [[], [1], [3], [2, 3], [0], [2, 1, 2]]
VALUES = [0, 1, 7, 100, True, False, 2.5, -0.5, 63.75]
TARGETS = ["bool", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "bfloat16", "float32"]
if L.X64:
    TARGETS += ["uint64", "int64", "float64"]
OPTS = st.sampled_from([None, None, None, {"validate": True}])


def with_opts(t):
    spec, o = t
    return {**spec, "opts": o} if o else spec


def specs():
    return st.tuples(st.one_of(L.spec_strategy(max_fields=4, min_fields=2, fills=True), L.spec_strategy(max_fields=3)), OPTS).map(with_opts)


def maybe(case, f, x):
    return jax.jit(f)(x) if case["jit"] else f(x)


# ---------------------------------------------------------------- fills
def fill_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "op": st.sampled_from(["zeros_like", "ones_like", "full_like", "full_like"]),
                                  "value": st.integers(0, len(VALUES) - 1), "array": st.booleans(), "jit": st.booleans(), "special": st.booleans()})


def run_fill(case):
    spec, batch, op = case["spec"], tuple(case["batch"]), case["op"]
    a = (L.raw_arrays if case["special"] else L.arrays)(spec, batch, case["salt"])
    x = L.from_np(spec, a)
    v = {"zeros_like": 0, "ones_like": 1}.get(op, VALUES[case["value"]])
    if v == -0.5 and any(w.dtype.kind == "u" for w in a.values()):
        v = 3.25
    if op == "full_like":
        arg = jnp.asarray(v) if case["array"] else v
        z = maybe(case, lambda w: xnp.full_like(w, arg), x)
    else:
        z = maybe(case, lambda w: getattr(xnp, op)(w), x)
    check(type(z) is type(x), "{}: class {}", op, type(z))
    d = L.same({p: np.full(w.shape, np.asarray(v).astype(w.dtype)) for p, w in a.items()}, L.to_np(spec, z))
    check(d is None, "{}({}): {}", op, v, d)
    d = L.same(a, L.to_np(spec, x))
    check(d is None, "{} changed its input: {}", op, d)
    return len(a) > 1 and all(w.size for w in a.values()), [op]


# ---------------------------------------------------------------- conversions
def cast_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "to": st.sampled_from(TARGETS), "method": st.booleans(),
                                  "copy": st.sampled_from([None, True, False]), "jit": st.sampled_from([False, True])})


def run_cast(case):
    spec, batch, to = case["spec"], tuple(case["batch"]), L.npdt(case["to"])
    a = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, a)
    kw = {} if case["copy"] is None else {"copy": case["copy"]}
    dt = L.DT[case["to"]] if case["salt"] % 2 else to
    z = maybe(case, lambda w: w.astype(dt, **kw) if case["method"] else xnp.astype(w, dt, **kw), x)
    check(type(z) is type(x), "astype: class {}", type(z))
    got = L.to_np(spec, z)
    changed = 0
    for p, w in a.items():
        name = ".".join(p)
        check(got[p].dtype == to and got[p].shape == w.shape, "astype({}) of {}: {} {}, expected {}", to, name, got[p].dtype, got[p].shape, w.shape)
        with np.errstate(all="ignore"):
            want = w.astype(to)
        ok = np.ones(w.shape, bool)
        if w.dtype.kind not in "uib" and to.kind in "ui":  # out-of-range float to integer conversions are unspecified
            f = np.trunc(w.astype(np.float64))
            ok = (f >= np.iinfo(to).min) & (f <= np.iinfo(to).max)
        same = (got[p] == want) | ~ok
        if to.kind not in "uib" and to.itemsize == 2:  # conversions through single precision may round twice
            near = np.asarray(w.astype(np.float64)).astype(np.float32).astype(to)
            same |= got[p] == near
            with np.errstate(all="ignore"):
                same |= got[p] == w.astype(np.float64).astype(to)
        check(bool(np.all(same)), "astype({}) of {} {}: got {!r}, expected {!r}", to, name, w.dtype, got[p][~same][:3] if w.shape else got[p], want[~same][:3] if w.shape else want)
        changed += w.dtype != to
    d = L.same(a, L.to_np(spec, x))
    check(d is None, "astype changed its input: {}", d)
    return changed > 0 and changed < len(a) or changed > 1, [case["to"], "method" if case["method"] else "function"]


# ---------------------------------------------------------------- queries
CASTING = ["safe", "no", "equiv", "same_kind", "unsafe"]


def query_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES[:4]), "tos": st.lists(st.sampled_from(TARGETS), min_size=8, max_size=8), "casting": st.sampled_from(CASTING),
                                  "other": st.sampled_from(["dtype", "instance", "instance"]), "leaf": st.integers(-1, 20)})


def run_query(case):
    spec, batch = case["spec"], tuple(case["batch"])
    a = L.arrays(spec, batch, 1)
    x = L.from_np(spec, a)
    lv = [p for p, _, _ in L.leaves(spec)]
    tos = {p: L.npdt(case["tos"][i % 8]) for i, p in enumerate(lv)}
    if case["leaf"] >= 0:  # all leaves castable but possibly one
        k = lv[case["leaf"] % len(lv)]
        tos = {p: a[p].dtype if p != k else tos[p] for p in lv}
    kw = {} if case["casting"] == "safe" else {"casting": case["casting"]}
    if case["other"] == "dtype":
        to = next(iter(tos.values()))
        want = all(jnp.can_cast(a[p].dtype, to, casting=case["casting"]) for p in lv)
        arg = [to, L.DT[case["tos"][0]]][len(lv) % 2] if case["leaf"] < 0 else to
    else:  # instances holding other dtypes cannot come from validating classes
        plain = L.build({"fields": spec["fields"]})
        x, y = L.from_np(spec, a, cls=plain), L.from_np(spec, {p: np.zeros(a[p].shape, tos[p]) for p in lv}, cls=plain)
        arg, want = y, all(jnp.can_cast(a[p].dtype, tos[p], casting=case["casting"]) for p in lv)
    got = xnp.can_cast(x, arg, **kw)
    check(bool(got) == want, "can_cast({}, {}, {}) is {}, the fields say {}", [str(a[p].dtype) for p in lv], [str(t) for t in tos.values()], case["casting"], got, want)
    r = xnp.result_type(x)
    for p in lv:
        check(jnp.dtype(L.get(r, p)) == a[p].dtype, "result_type of {} is {}, the field is {}", ".".join(p), L.get(r, p), a[p].dtype)
    if case["other"] == "instance":
        r = xnp.result_type(x, arg)
        for p in lv:
            w = jnp.promote_types(a[p].dtype, tos[p])
            check(jnp.dtype(L.get(r, p)) == w, "result_type of {} and {} at {} is {}, expected {}", a[p].dtype, tos[p], ".".join(p), L.get(r, p), w)
    return len(lv) > 1, [case["casting"], case["other"], "castable" if want else "not castable"]


SUBS = [Sub("fill", fill_strategy, run_fill, quick=500, shards=3, rule="random layouts x batch shapes x zeros_like/ones_like/full_like with int, float and boolean values (python or array); non-trivial: several non-empty fields"),
        Sub("cast", cast_strategy, run_cast, quick=600, shards=3, rule="random layouts x target dtypes x copy flag, as method or function, eager or jitted; oracle: NumPy conversion of every element in range; "
            "non-trivial: at least one leaf keeps or two leaves change their dtype"),
        Sub("query", query_strategy, run_query, quick=400, shards=2, rule="can_cast and result_type against dtypes and instances whose leaves differ one by one; oracle: the query on every leaf dtype; non-trivial: several leaves")]
SUBS += x64(SUBS, fill=100, cast=150, query=100)
