"""P19: validation accepts exactly the conforming instances."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, Violation, x64
from xtructure import numpy as xnp

RULE = ("random layouts with validators x batch shapes x up to two faulty fields (dtype, rank, one dimension, transposed dimensions, non-array, wrong nested "
        "class, too many elements for the validator), given as jax or numpy arrays to the constructor (keywords, positional, jitted), replace() or plain "
        "assignment followed by check_invariants(); non-trivial: at least one field is faulty and another is not")
BATCHES = [[], [1], [3], [2, 3], [0], [2, 2, 2]]
KINDS = ["dtype", "dtype", "rank", "dim", "dim", "swap", "object", "string", "class", "none nested", "array for nested", "more"]


def strategy(shard):
    def with_validators(t):
        spec, vs = t
        fields = []
        for (name, f), v in zip(spec["fields"], vs):
            f = dict(f)
            if v is not None:
                f["vslack"], f["verr"] = v
            fields.append([name, f])
        return {"fields": fields}
    vs = st.lists(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(0, 3))), min_size=4, max_size=4)
    base = st.one_of(L.spec_strategy(max_fields=4, min_fields=2, fills=True), L.spec_strategy(max_fields=2))
    return st.fixed_dictionaries({
        "spec": st.tuples(base, vs).map(with_validators), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6),
        "faults": st.sampled_from([0, 1, 1, 1, 2]).flatmap(lambda n: st.lists(st.tuples(st.integers(0, 7), st.sampled_from(KINDS), st.integers(0, 50)).map(list), min_size=n, max_size=n)),
        "how": st.sampled_from(["kw", "kw", "pos", "jit", "replace", "assign"]), "np": st.booleans(), "derived": st.integers(0, 7)})


def resolve(spec, batch):
    """Turn the validators' slack into absolute limits (elements of the conforming value + slack)."""
    fields = []
    for name, f in spec["fields"]:
        f = dict(f)
        if "vslack" in f:
            size = sum(int(np.prod(tuple(batch) + L.leaf_shape(g, lead))) for _, g, lead in L.leaves({"fields": [[name, {k: v for k, v in f.items() if k != "vslack"}]]}))
            f["vlimit"] = size + f.pop("vslack")
        fields.append([name, f])
    return fields


def count(value):
    return sum(x.size for x in jax.tree_util.tree_leaves(value) if hasattr(x, "size"))


def mutate(name, f, value, kind, k, batch):
    """A possibly non-conforming replacement of a field's value (None: the mutation does not apply)."""
    nested = "nest" in f
    if kind == "more":
        return jax.tree_util.tree_map(lambda v: jnp.concatenate([jnp.asarray(v)] * 2, axis=0), value) if batch else None
    if nested:
        if kind == "class":
            twin = L.build({"fields": f["nest"]["fields"], "name": "Twin" + L.class_name(f["nest"])})
            return twin.default(tuple(batch) + tuple(f.get("sh", ())))
        if kind == "none nested":
            return "not an instance"
        if kind == "array for nested":
            return jnp.zeros(tuple(batch) + tuple(f.get("sh", ())), jnp.uint8)
        return None
    a = np.asarray(value)
    sh = L.leaf_shape(f, ())
    if kind == "dtype":
        return a.astype(L.npdt(L.PRIM[k % len(L.PRIM)]))
    if kind == "rank":
        return np.zeros(a.shape[-len(sh):][1:] if sh else (), a.dtype)
    if kind == "dim" and sh:
        i = k % len(sh)
        new = list(sh)
        new[i] = [new[i] + 1, max(new[i] - 1, 0), 0, 1, 2 * new[i]][k // 3 % 5]
        return np.zeros(tuple(batch) + tuple(new), a.dtype)
    if kind == "swap" and len(sh) > 1:
        return np.swapaxes(a, -1, -2)
    if kind == "object":
        return object()
    if kind == "string":
        return "text"
    return None


def verdict(cls, name, f, value):
    """(exception types allowed, whether the message names the field) or None, from the declaration alone."""
    if "vlimit" in f and count(value) > f["vlimit"]:
        return L.ERRORS[f["verr"]], False
    if "nest" in f:
        return None if isinstance(value, L.build(f["nest"])) else (TypeError, True)
    if not isinstance(value, (np.ndarray, jax.Array)):
        return TypeError, True
    if value.dtype != L.leaf_dtype(f):
        return TypeError, True
    sh = L.leaf_shape(f, ())
    if sh and (value.ndim < len(sh) or tuple(value.shape[-len(sh):]) != sh):
        return ValueError, True
    return None


def expect(cls, fields, values, f, what):
    """Run f() and compare its outcome with the verdict on values; returns the result or None when refused."""
    want = {n: v for n, v in ((n, verdict(cls, n, fd, values[n])) for n, fd in fields) if v}
    try:
        out = f()
    except Exception as e:
        if isinstance(e, Violation):
            raise
        ok = any(type(e) is t and (not names or f"{cls.__name__}.{n}" in str(e)) for n, (t, names) in want.items())
        check(ok, "{}: {}: {} (faulty: {})", what, type(e).__name__, str(e)[:300], {n: t.__name__ for n, (t, _) in want.items()})
        return None
    check(not want, "{}: accepted although faulty: {}", what, {n: t.__name__ for n, (t, _) in want.items()})
    return out


def run(case):
    batch = tuple(case["batch"])
    fields = resolve(case["spec"], batch)
    strict = L.build({"fields": fields, "opts": {"validate": True}})
    loose = L.build({"fields": fields})
    spec = {"fields": fields}
    arrs = L.arrays(spec, batch, case["salt"])
    good = L.from_np(spec, arrs, cls=loose)
    values = {n: getattr(good, n) for n, _ in fields}
    if case["np"] and case["how"] != "jit":
        values = {n: v if "nest" in f else arrs[(n,)] for (n, f), v in zip(fields, values.values())}
    conforming = dict(values)
    for i, kind, k in case["faults"]:
        name, f = fields[i % len(fields)]
        for j in range(len(KINDS)):  # the first kind from here on that applies to this field
            new = mutate(name, f, conforming[name], KINDS[(KINDS.index(kind) + j) % len(KINDS)], k, batch)
            if new is not None:
                break
        if new is not None:
            values[name] = jnp.asarray(new) if isinstance(new, np.ndarray) and not case["np"] else new
    faulty = [n for n, f in fields if verdict(strict, n, f, values[n])]
    how = case["how"]
    arrays_only = all(isinstance(v, (np.ndarray, jax.Array)) or hasattr(v, "check_invariants") for v in values.values())
    if how == "jit" and arrays_only:
        x = expect(strict, fields, values, lambda: jax.jit(lambda v: strict(**v))(values), "jitted constructor")
    elif how == "pos":
        x = expect(strict, fields, values, lambda: strict(*values.values()), "constructor")
    elif how == "replace":
        base = strict(**conforming)
        changed = {n: v for n, v in values.items() if v is not conforming[n]}
        x = expect(strict, fields, values, lambda: base.replace(**changed), "replace")
    else:
        x = expect(strict, fields, values, lambda: strict(**values), "constructor")
    if x is not None:
        d = L.same(arrs, L.to_np(spec, x)) if all(values[n] is conforming[n] for n in values) else None
        check(d is None, "validation altered the data: {}", d)
        for n, v in values.items():
            if how != "jit":
                check(getattr(x, n) is v, "field {} is not the object it was given", n)
        x.check_invariants()
    # the explicit check on an unvalidated twin gives the same verdict
    if how == "assign":
        y = loose(**conforming)
        y.check_invariants()
        for n, v in values.items():
            setattr(y, n, v)
    else:
        y = loose(**values)
    expect(loose, fields, values, lambda: (y.check_invariants(), y)[1], "check_invariants of the unvalidated class")
    for n, v in values.items():
        check(getattr(y, n) is v, "check_invariants replaced field {}", n)
    # what the class itself produces conforms
    if not any("vlimit" in f for _, f in fields) and case["derived"] < 6:
        ok = strict(**conforming)
        made = [lambda: strict.default(batch), lambda: ok[None], lambda: xnp.stack([ok, ok]), lambda: strict.default(), lambda: ok.reshape((-1,)) if batch else ok,
                lambda: xnp.concat([ok, ok]) if batch else ok][case["derived"]]()
        made.check_invariants()
        check(type(made) is strict, "derived instance has class {}", type(made))
    kinds = [k for _, k, _ in case["faults"]]
    return bool(faulty) and len(faulty) < len(fields), [how, "refused" if faulty else "accepted", *kinds]


SUBS = [Sub("validate", strategy, run, quick=2400, shards=8, rule=RULE)]
SUBS += x64(SUBS, validate=250)
