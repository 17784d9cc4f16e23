"""P16: indexing and functional updates act on every field and on nothing else."""
from itertools import islice

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import big, layouts as L
from pbt.common import check, Sub, x64

RULE = ("random layouts x batch ranks 1-3 x histories of indexing / at[].set / at[].set_as_condition with ints, slices (any step), integer arrays of "
        "several dtypes, boolean masks, tuples of those, newaxis and trailing ellipsis; scalar, single and batched values; eager and jitted; "
        "non-trivial: some step changes at least one but not all batch elements")
BATCHES = [[5], [5], [2, 3], [3, 2, 2], [1], [7], [4, 1], [3, 4], [24], [24, 2]]
BIG = [[300], [257], [256], [20, 16], [40, 9]]
IDX_DT = ["int32", "int32", "uint8", "int8", "uint32", "int16"]


def axis_index(unique):
    return st.one_of(
        st.tuples(st.just("int"), st.integers(-400, 399)).map(list),
        st.tuples(st.just("slice"), *[st.one_of(st.none(), st.integers(-8, 8))] * 2, st.sampled_from([None, None, 1, 2, -1, -2, 3])).map(list),
        st.tuples(st.just("arr"), st.integers(0, 10 ** 6), st.sampled_from(IDX_DT)).map(list))


def expr():
    return st.fixed_dictionaries({"axes": st.lists(axis_index(True), min_size=1, max_size=3), "len": st.integers(1, 4),
                                  "kind": st.sampled_from(["axes", "axes", "axes", "single", "mask", "ellipsis", "newaxis"]), "salt": st.integers(0, 10 ** 6)})


def strategy_for(big):
    def strategy(shard):
        val = st.fixed_dictionaries({"kind": st.sampled_from(["scalar", "single", "batched", "batched"]), "salt": st.integers(0, 10 ** 6)})
        op = st.one_of(st.tuples(st.just("get"), expr()).map(list), st.tuples(st.just("set"), expr(), val).map(list), st.tuples(st.just("set"), expr(), val).map(list),
                       st.tuples(st.just("cond"), st.fixed_dictionaries({
                           "kind": st.sampled_from(["arr", "arr", "arr", "int", "slice", "tuple", "tuple", "mixed"]), "n": st.integers(1, 9), "salt": st.integers(0, 10 ** 6),
                           "dt": st.sampled_from(IDX_DT), "oob": st.sampled_from([False, False, True]), "density": st.sampled_from([1, 2, 3]), "narrow": st.booleans(),
                           "slice": st.tuples(st.one_of(st.none(), st.integers(-6, 6)), st.one_of(st.none(), st.integers(-6, 8)), st.sampled_from([None, 1, 2, -1])).map(list)}), val).map(list),
                       st.tuples(st.just("cond"), st.fixed_dictionaries({
                           "kind": st.just("arr"), "n": st.one_of(st.integers(3, 12), st.sampled_from([20, 30, 40])), "salt": st.integers(0, 10 ** 6), "dt": st.sampled_from(IDX_DT), "oob": st.just(False),
                           "density": st.sampled_from([1, 2]), "narrow": st.just(True), "slice": st.just([None, None, None])}), val).map(list))
        base = op
        cols = st.tuples(st.just("cond"), st.fixed_dictionaries({
                           "kind": st.just("tuple"), "n": st.integers(1, 9), "salt": st.integers(0, 10 ** 6), "dt": st.sampled_from(["uint8", "int8", "uint16"]), "oob": st.just(False),
                           "density": st.sampled_from([1, 2, 3]), "narrow": st.just(False), "slice": st.just([None, None, None])}), val).map(list)
        op = st.sampled_from([0, 0, 1] if big else [0, 0, 0, 0, 1]).flatmap(lambda k: cols if k else base)
        return st.fixed_dictionaries({"spec": L.spec_strategy(max_fields=2 if big else 3, depth=1 if big else 2, shapes=L.SHAPES[:6] if big else L.SHAPES),
                                      "batch": st.sampled_from(BIG if big else BATCHES), "salt": st.integers(0, 10 ** 6),
                                      "ops": st.lists(op, min_size=1, max_size=3), "jit": st.sampled_from([False, False, False, True])})
    return strategy


def fit(v, dt):
    """Index array in dtype dt when representable, else int32."""
    info = np.iinfo(dt)
    return v.astype(dt) if v.size == 0 or (v.min() >= info.min and v.max() <= info.max) else v.astype(np.int32)


def make_index(e, batch, unique):
    """(index expression, contains an array) valid for the batch shape; arrays without repeats when `unique`."""
    rank = len(batch)
    if e["kind"] == "mask":
        k = 1 + e["salt"] % rank
        return (L._mix(np.arange(int(np.prod(batch[:k])), dtype=np.uint64) + np.uint64(e["salt"])) % 2 == 0).reshape(batch[:k]), True
    axes = e["axes"][:rank]
    if e["kind"] == "single":
        axes = axes[:1]
    out, arrs = [], [i for i, a in enumerate(axes) if a[0] == "arr"]
    length = min([e["len"]] + [batch[i] for i in arrs]) if unique else e["len"]
    for i, a in enumerate(axes):
        n = batch[i]
        if a[0] == "int":
            out.append((a[1] % n) - (n if a[1] < 0 else 0))
        elif a[0] == "slice":
            out.append(slice(a[1], a[2], a[3]))
        else:
            rng = np.random.RandomState(a[1] % 2 ** 31)
            v = rng.permutation(n)[:length] if unique else rng.randint(0, n, length)
            if not a[2].startswith("u"):
                v = np.where(rng.rand(length) < 0.3, v - n, v)
            out.append(fit(v, "int32" if a[2] == "int8" and n > 127 else a[2]))  # JAX refuses int8 on such an axis
    if e["kind"] == "ellipsis":
        out.append(Ellipsis)
    if e["kind"] == "newaxis":
        out = [None] + out
    if len(out) == 1 and e["kind"] == "single":
        return out[0], bool(arrs)
    return tuple(out), bool(arrs)


def to_jax(ix):
    if isinstance(ix, tuple):
        return tuple(to_jax(i) for i in ix)
    return jnp.asarray(ix) if isinstance(ix, np.ndarray) else ix


def dynamic(ix):
    """Only integer index arrays may be traced."""
    return isinstance(ix, np.ndarray) and ix.dtype != bool


def call(case, f, ix, *args):
    """f(index, *args), eager or jitted (integer index arrays traced)."""
    if not case["jit"]:
        return f(to_jax(ix), *args)
    parts = ix if isinstance(ix, tuple) else (ix,)
    dyn = [jnp.asarray(p) for p in parts if dynamic(p)]

    def g(dyn, *args):
        it = iter(dyn)
        full = tuple(next(it) if dynamic(p) else p for p in parts)
        return f(full if isinstance(ix, tuple) else full[0], *args)
    return jax.jit(g)(dyn, *args)


def value(spec, case, v, shape):
    """(value for the library, {path: array broadcastable to shape + intrinsic})."""
    lv = L.leaves(spec)
    if v["kind"] == "scalar":
        s = [0, 1, True, False][v["salt"] % 4]
        return s, {p: np.asarray(s) for p, _, _ in lv}
    batch = () if v["kind"] == "single" else tuple(shape)
    a = L.arrays(spec, batch, v["salt"] + 7)
    return L.from_np(spec, a), a


def run(case):
    spec, batch = case["spec"], tuple(case["batch"])
    model = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, model)
    labels, nontrivial = {f"rank {len(batch)}", "jit" if case["jit"] else "eager"}, False
    for op in case["ops"]:
        before = {p: a.copy() for p, a in model.items()}
        if op[0] == "get":
            ix, _ = make_index(op[1], batch, False)
            got = call(case, lambda i, x: x[i], ix, x)
            want = {p: a[ix] for p, a in model.items()}
            d = L.same(want, L.to_np(spec, got))
            check(d is None, "x[{!r}] over batch {}: {}", ix, batch, d)
            shape = np.zeros(batch)[ix].shape
            check(tuple(got.shape.batch) == shape, "x[{!r}] over batch {} reports batch {}", ix, batch, got.shape.batch)
            check(type(got) is type(x), "x[{!r}] is a {}", ix, type(got))
            labels.add("get " + op[1]["kind"])
        elif op[0] == "set":
            ix, _ = make_index(op[1], batch, op[2]["kind"] == "batched")
            shape = np.zeros(batch)[ix].shape
            val, varr = value(spec, case, op[2], shape)
            new = call(case, lambda i, x, v: x.at[i].set(v), ix, x, val)
            model = {p: a.copy() for p, a in model.items()}
            for p in model:
                model[p][ix] = varr[p]
            d = L.same(model, L.to_np(spec, new))
            check(d is None, "x.at[{!r}].set({}) over batch {}: {}", ix, op[2]["kind"], batch, d)
            hit = np.zeros(batch, bool)
            hit[ix] = True
            nontrivial |= bool(hit.any() and not hit.all())
            x_old, x = x, new
            d = L.same(before, L.to_np(spec, x_old))
            check(d is None, "x.at[{!r}].set changed the original: {}", ix, d)
            labels.add("set " + op[1]["kind"] + " " + op[2]["kind"])
        else:
            c = op[1]
            rng = np.random.RandomState(c["salt"] % 2 ** 31)
            kind, n = c["kind"], c["n"]
            if kind == "arr":
                top = max(1, min(batch[0], n // 2)) if c["narrow"] else batch[0]
                v = rng.randint(0, top, n)
                if c["oob"]:
                    v = np.where(rng.rand(n) < 0.3, batch[0] + rng.randint(0, 3, n), v)
                ix = fit(v, c["dt"])
                pos = np.where(v < batch[0], v, -1)
                positions, cshape = [(int(q),) if q >= 0 else None for q in pos], (n,)
                if c["salt"] % 5 == 0 and n % 2 == 0 and op[2]["kind"] != "batched":  # index arrays of rank 2
                    ix, cshape = ix.reshape(2, n // 2), (2, n // 2)
            elif kind == "int":
                q = int(rng.randint(batch[0]))
                ix, positions, cshape = q, [(q,)], ()
            elif kind == "slice":
                ix = slice(*c["slice"])
                positions = [(int(q),) for q in np.arange(batch[0])[ix]]
                cshape = (len(positions),)
            elif kind == "tuple":
                k = 1 + c["salt"] % len(batch)
                cols = [rng.randint(0, max(1, min(batch[i], 2)) if c["narrow"] else batch[i], n) for i in range(k)]
                ix = tuple(fit(col, c["dt"]) for col in cols)
                positions, cshape = [tuple(int(col[j]) for col in cols) for j in range(n)], (n,)
            else:  # a tuple with a slice in it
                if len(batch) < 2:
                    continue
                s, q = slice(*c["slice"]), int(rng.randint(batch[1]))
                ix = (s, q) if c["salt"] % 2 else (int(rng.randint(batch[0])), s)
                grid = np.arange(batch[0] * batch[1]).reshape(batch[:2])[ix]
                positions, cshape = [tuple(int(t) for t in np.unravel_index(int(g), batch[:2])) for g in grid], grid.shape
            m = len(positions)
            cond = rng.rand(m) < [0.25, 0.6, 1.0][c["density"] - 1]
            kinds = dict(op[2])
            depth = len(ix) if isinstance(ix, tuple) else 1
            val, varr = value(spec, case, kinds, tuple(cshape) + batch[depth:])
            new = call(case, lambda i, x, cnd, v: x.at[i].set_as_condition(cnd, v), ix, x, jnp.asarray(cond.reshape(cshape)), val)
            model = {p: a.copy() for p, a in model.items()}
            done = set()
            for j, q in enumerate(positions):
                if q is None or not cond[j] or q in done:
                    continue
                done.add(q)
                for p in model:
                    v = varr[p]
                    model[p][q] = v if kinds["kind"] != "batched" else v.reshape((m,) + v.shape[len(cshape):])[j]
            d = L.same(model, L.to_np(spec, new))
            check(d is None, "x.at[{!r}].set_as_condition({}, {}) over batch {}: {}", ix, cond.tolist(), kinds["kind"], batch, d)
            d = L.same(before, L.to_np(spec, x))
            check(d is None, "set_as_condition changed the original: {}", d)
            nontrivial |= 0 < len(done) < int(np.prod(batch[:depth]))
            labels.add("cond " + kind)
            x = new
    return nontrivial, sorted(labels)


def iterate_strategy(shard):
    return st.fixed_dictionaries({"spec": L.spec_strategy(), "batch": st.sampled_from([[1], [3], [2, 3], [4, 1, 2], [0], [0, 2], [3, 0]]), "salt": st.integers(0, 10 ** 6)})


def run_iterate(case):
    spec, batch = case["spec"], tuple(case["batch"])
    arrs = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, arrs)
    items = list(islice(iter(x), batch[0] + 2))  # an endless iteration shows as too many items
    check(len(items) == batch[0], "iterating a batch {} gives {} items", batch, len(items))
    for i, v in enumerate(items):
        check(type(v) is type(x), "item {} is a {}", i, type(v))
        d = L.same({p: a[i] for p, a in arrs.items()}, L.to_np(spec, v))
        check(d is None, "item {} of a batch {}: {}", i, batch, d)
    return batch[0] > 1, [f"rank {len(batch)}"]


SUBS = [Sub("iterate", iterate_strategy, run_iterate, quick=80, shards=1, rule="iterating batches of rank 1-3; oracle: the items of every field array; non-trivial: several items"),
        Sub("history", strategy_for(False), run, quick=700, shards=7, rule=RULE),
        Sub("large", strategy_for(True), run, quick=80, shards=1, rule="the same over batches of 256-300 elements (index dtypes that cannot hold the size)")]
SUBS.append(Sub("huge", big.index_strategy, big.run_index, quick=80, thorough=1500, shards=2, rule=big.INDEX_RULE))
SUBS += x64(SUBS, history=80)
