"""P24: method, function and compiled forms agree; inputs are never modified."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt import plans
from pbt.common import check, Sub, x64
from pbt.props.p20 import free_of, specs
from xtructure import BGPQ, HashTable, Queue, Stack
from xtructure import numpy as xnp

BATCHES = [[], [1], [4], [6], [2, 3], [3, 1], [2, 1, 3], [0]]
SHAPE_OPS = ["reshape", "flatten", "transpose", "swapaxes", "moveaxis", "squeeze", "expand_dims", "broadcast_to", "roll", "flip", "rot90"]
OTHERS = ["astype", "pad", "pad value", "pad edge", "equal", "not_equal", "isclose", "allclose", "equal scalar", "vstack", "hstack", "dstack", "column_stack", "block"]


def leaves_of(z):
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(z)]


def agree(what, a, b):
    check(type(a) is type(b) or not hasattr(a, "__dataclass_fields__"), "{}: {} and {}", what, type(a), type(b))
    check(jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b), "{}: different structures", what)
    for i, (x, y) in enumerate(zip(leaves_of(a), leaves_of(b))):
        check(x.dtype == y.dtype and x.shape == y.shape, "{}: leaf {} is {}{} in one form and {}{} in the other", what, i, x.dtype, x.shape, y.dtype, y.shape)
        check(x.tobytes() == y.tobytes(), "{}: leaf {} is {} in one form and {} in the other", what, i, x, y)


def outcome(f):
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001 - which error is not compared
        return None, e


# ---------------------------------------------------------------- methods, functions, compiled
def forms_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "op": st.sampled_from(SHAPE_OPS + OTHERS), "seed": st.integers(0, 10 ** 6),
                                  "spelling": st.integers(0, 7), "jit": st.booleans(), "wrong": st.sampled_from([False, False, False, False, True])})


def arguments(case, spec, batch, arrs, rng):
    """(name, args, kwargs, extra arrays to watch)"""
    op = case["op"]
    cls = L.build(spec)
    if op in SHAPE_OPS:
        unit = any(1 in L.leaf_shape(f, lead) for _, f, lead in L.leaves(spec))
        a = plans.args_for(op, rng, batch, free_of(spec), unit)
        if a is None:
            return None
        args, kw = a
        if op == "reshape":
            s = args[0]
            args = [(s,), (list(s),), (s,)][case["spelling"] % 3]
            if len(s) == 1 and case["spelling"] > 4:
                args = (int(s[0]),)
        if op == "transpose" and kw and case["spelling"] % 2:
            args, kw = (kw["axes"],), {}
        if op in ("swapaxes",) and case["spelling"] % 2:
            args, kw = (), {"axis1": args[0], "axis2": args[1]}
        if op in ("squeeze", "expand_dims") and args and case["spelling"] % 2:
            args, kw = (), {"axis": args[0]}
        return op, args, kw, []
    if op == "astype":
        dt = [jnp.float32, jnp.uint8, jnp.int32, jnp.bool_, "float16", np.dtype("uint16")][case["spelling"] % 6]
        return op, (dt,), {}, []
    if op.startswith("pad"):
        w = [1, (0, 2), 0][case["spelling"] % 3] if len(batch) < 2 else [1, [(1, 0)] * len(batch), [(0, 1)] * len(batch)][case["spelling"] % 3]
        if op == "pad":
            return "pad", (w,), {}, []
        if op == "pad value":
            return "pad", (w,), {"constant_values": 7}, []
        return "pad", (w, "edge") if case["spelling"] % 2 else (w,), {} if case["spelling"] % 2 else {"mode": "edge"}, []
    if op in ("equal", "not_equal", "isclose", "allclose"):
        other = {p: a.copy() for p, a in arrs.items()}
        for p, a in other.items():
            if a.size and rng.rand() < 0.5:
                flat = a.reshape(-1)
                k = rng.randint(flat.size)
                flat[k] = flat[(k + 1) % flat.size]
        y = L.from_np(spec, other)
        kw = {}
        if op in ("isclose", "allclose") and case["spelling"] % 2:
            kw = {"rtol": 0.5, "atol": 0.25} if case["spelling"] % 4 == 1 else {"equal_nan": True}
        if case["spelling"] > 5 and op in ("isclose", "allclose"):
            return op, (y, 0.25, 0.5), {}, [(other, y)]
        return op, (y,), kw, [(other, y)]
    if op == "equal scalar":
        return ("equal" if case["spelling"] % 2 else "not_equal"), (cls.default(tuple(batch)),), {}, []
    return op, (), {}, []  # vstack ... block of the items of a batch


def run_forms(case):
    spec, batch = case["spec"], tuple(case["batch"])
    rng = np.random.RandomState(case["seed"])
    arrs = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, arrs)
    if case["op"] in ("vstack", "hstack", "dstack", "column_stack", "block") and (not batch or batch[0] == 0):
        return False, ["not applicable"]
    a = arguments(case, spec, batch, arrs, rng)
    if a is None:
        return False, ["not applicable"]
    name, args, kw, watch = a
    if case["wrong"]:  # arguments no form can accept
        if name in ("reshape", "broadcast_to"):
            args, kw = ((int(np.prod(batch)) + 1, 5, 7),), {}
        elif name in ("swapaxes", "moveaxis"):
            args, kw = (0, 9), {}
        elif name == "astype":
            args = ("no such type",)
        else:
            kw = {**kw, "nonsense": 1}
    what = f"{name}{tuple(v if not hasattr(v, '__dataclass_fields__') else '...' for v in args)}{kw} of batch {batch}"
    fn = lambda v: getattr(xnp, name)(v, *args, **kw)
    me = lambda v: getattr(v, name)(*args, **kw)
    r1, e1 = outcome(lambda: fn(x))
    r2, e2 = outcome(lambda: me(x))
    check((e1 is None) == (e2 is None), "{}: the function {} but the method {}", what, f"raises {e1!r}"[:200] if e1 else "works", f"raises {e2!r}"[:200] if e2 else "works")
    if e1 is None:
        agree(f"{what}, function and method", r1, r2)
        if case["jit"]:
            r3 = jax.jit([fn, me][case["seed"] % 2])(x)
            agree(f"{what}, eager and compiled", r1, r3)
    for want, inst in [(arrs, x)] + watch:
        d = L.same(want, L.to_np(spec, inst))
        check(d is None, "{} changed its input: {}", what, d)
    return e1 is None and all(w.size for w in arrs.values()) or case["wrong"], [name, "refused" if e1 else "accepted", "compiled" if case["jit"] and not e1 else "eager"]


# ---------------------------------------------------------------- vmapped
VOPS = ["reshape", "transpose", "flip", "roll", "zeros_like", "astype", "equal", "isclose", "where", "take", "concat", "stack", "tile", "update", "pad", "at", "getitem", "unique", "split", "repeat"]


def vmap_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "n": st.integers(1, 3), "batch": st.sampled_from([[4], [2, 3], [3, 1], [5]]), "salt": st.integers(0, 10 ** 6), "op": st.sampled_from(VOPS),
                                  "seed": st.integers(0, 10 ** 6), "jit": st.booleans()})


def run_vmap(case):
    spec, batch, n, op = case["spec"], tuple(case["batch"]), case["n"], case["op"]
    rng = np.random.RandomState(case["seed"])
    a, b = L.arrays(spec, (n, *batch), case["salt"]), L.arrays(spec, (n, *batch), case["salt"] + 1)
    m = rng.rand(n, *batch) < 0.5
    same_rows = rng.rand(n, *batch) < 0.5
    for p in b:  # agree in places
        b[p] = np.where(same_rows.reshape(same_rows.shape + (1,) * (b[p].ndim - same_rows.ndim)), a[p], b[p])
    x, y, c = L.from_np(spec, a), L.from_np(spec, b), jnp.asarray(m)
    i = jnp.asarray(rng.randint(0, batch[0], (n, 3)), dtype=jnp.int32)
    size = int(np.prod(batch))
    axes = tuple(range(len(batch)))[::-1]
    f = {"reshape": lambda u, v, k, j: u.reshape((size, 1)), "transpose": lambda u, v, k, j: xnp.transpose(u, axes), "flip": lambda u, v, k, j: xnp.flip(u, axis=0),
         "roll": lambda u, v, k, j: u.roll(1, axis=0), "zeros_like": lambda u, v, k, j: xnp.zeros_like(u), "astype": lambda u, v, k, j: u.astype(jnp.float32),
         "equal": lambda u, v, k, j: xnp.equal(u, v), "isclose": lambda u, v, k, j: u.isclose(v), "where": lambda u, v, k, j: xnp.where(k, u, v),
         "take": lambda u, v, k, j: xnp.take(u, j, axis=0), "concat": lambda u, v, k, j: xnp.concat([u, v]), "stack": lambda u, v, k, j: xnp.stack([v, u], axis=0),
         "tile": lambda u, v, k, j: xnp.tile(u, 2), "update": lambda u, v, k, j: xnp.update_on_condition(u, j, k.reshape(-1)[:3], v[:3] if batch[0] >= 3 else v[jnp.zeros(3, dtype=jnp.int32)]),
         "pad": lambda u, v, k, j: xnp.pad(u, 1), "at": lambda u, v, k, j: u.at[j[0]].set(v[j[1]]), "getitem": lambda u, v, k, j: u[j],
         "unique": lambda u, v, k, j: xnp.unique_mask(xnp.concat([u, v]).reshape((-1,)), return_index=False), "split": lambda u, v, k, j: xnp.split(u, batch[0])[0],
         "repeat": lambda u, v, k, j: xnp.repeat(u, 2, axis=0)}[op]
    g = jax.vmap(f)
    r = (jax.jit(g) if case["jit"] else g)(x, y, c, i)
    for t in range(n):
        e = f(x[t], y[t], c[t], i[t])
        agree(f"{op} mapped over {n} x {batch}, item {t}", e, jax.tree_util.tree_map(lambda v: v[t], r))
    for want, inst in ((a, x), (b, y)):
        d = L.same(want, L.to_np(spec, inst))
        check(d is None, "{} changed its input: {}", op, d)
    return n > 1, [op, "compiled" if case["jit"] else "eager"]


# ---------------------------------------------------------------- structures
K = 4
STEPS = {"table": ["pinsert", "insert", "lookup", "plookup", "pinsert masked"], "heap": ["insert", "delete", "insert", "delete partial"],
         "queue": ["enqueue", "enqueue batch", "dequeue", "dequeue batch", "peek"], "stack": ["push", "push batch", "pop", "pop batch", "peek"]}


def struct_strategy(shard):
    kind = ["table", "heap", "queue", "stack"][shard % 4]
    pool = [0, 2, 3, 7] if shard < 4 else [1, 4, 10, 11]
    step = st.tuples(st.sampled_from(STEPS[kind]), st.integers(0, 10 ** 6)).map(list)
    return st.fixed_dictionaries({"kind": st.just(kind), "pool": st.sampled_from(pool), "steps": st.lists(step, min_size=1, max_size=3), "salts": st.lists(st.integers(0, 1000), min_size=2, max_size=2)})


def prepare(case, lane):
    """Inputs of every step for one lane, as arrays, so that one program serves all lanes."""
    spec = L.POOL[case["pool"]]
    out = []
    for t, (name, seed) in enumerate(case["steps"]):
        rng = np.random.RandomState((seed + 7919 * case["salts"][lane]) % 2 ** 31)
        codes = rng.randint(0, 6, K)
        out.append((L.from_np(spec, L.rows_arrays(spec, codes)), jnp.asarray(np.sort(rng.randint(0, 9, K)).astype(np.float16)), jnp.asarray(rng.rand(K) < 0.7)))
    return out


def program(case):
    kind, steps = case["kind"], [s for s, _ in case["steps"]]

    def go(s, data):
        out = []
        n = 0  # items certainly stored (queues and stacks must not underflow)
        for name, (v, k, m) in zip(steps, data):
            if kind == "table":
                if name == "pinsert":
                    s, *r = s.parallel_insert(v)
                elif name == "pinsert masked":
                    s, *r = s.parallel_insert(v, m)
                elif name == "insert":
                    s, *r = s.insert(v[0])
                elif name == "lookup":
                    r = [s.lookup(v[1])[1]]
                else:
                    idx, found = s.lookup_parallel(v)
                    r = [found]
                if name.startswith("pinsert"):
                    r[-1] = jnp.where(m, s[r[-1]].hash() if not name.endswith("masked") else 0, 0)
                out.append((s.size, r))
            elif kind == "heap":
                if name == "insert":
                    s = s.insert(k, v)
                    r = ()
                else:
                    s, mk, mv = s.delete_mins()
                    r = (mk, mv)
                out.append((s.size, r))
            else:
                add, rem = ("enqueue", "dequeue") if kind == "queue" else ("push", "pop")
                if name == add:
                    s, r, n = getattr(s, add)(v[0]), (), n + 1
                elif name == add + " batch":
                    s, r, n = getattr(s, add)(v), (), n + K
                elif name == rem and n >= 1:
                    (s, r), n = getattr(s, rem)(), n - 1
                elif name == rem + " batch" and n >= K:
                    (s, r), n = getattr(s, rem)(K), n - K
                elif name == "peek" and n >= 1:
                    r = s.peek()
                else:
                    r = ()
                out.append((s.size, r))
        return s, out
    return go


def run_struct(case):
    spec = L.POOL[case["pool"]]
    cls = L.build(spec)
    s0 = {"table": lambda: HashTable.build(cls, 3, 24), "heap": lambda: BGPQ.build(20, K, cls), "queue": lambda: Queue.build(24, cls), "stack": lambda: Stack.build(24, cls)}[case["kind"]]()
    before = leaves_of(s0)
    go = program(case)
    data = [prepare(case, lane) for lane in range(2)]
    plain = [go(s0, d) for d in data]
    compiled = jax.jit(go)(s0, data[0])
    agree(f"{case['kind']} {[s for s, _ in case['steps']]} eager and compiled", plain[0], compiled)
    both = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *data)
    mapped = jax.vmap(go, in_axes=(None, 0))(s0, both)
    for t in range(2):
        agree(f"{case['kind']} {[s for s, _ in case['steps']]} alone and mapped, lane {t}", plain[t], jax.tree_util.tree_map(lambda v: v[t], mapped))
    for x, y in zip(before, leaves_of(s0)):
        check(x.tobytes() == y.tobytes(), "{} {} changed its input", case["kind"], case["steps"])
    return len(case["steps"]) > 1, [case["kind"], *(s for s, _ in case["steps"])]


SUBS = [Sub("forms", forms_strategy, run_forms, quick=1600, shards=4, rule="random layouts x batch shapes x every operation offered as method and as function x argument spellings (also unacceptable ones); function, method and "
            "compiled form give the same bytes or all raise, inputs unchanged; non-trivial: accepted with non-empty fields, or deliberately unacceptable"),
        Sub("vmap", vmap_strategy, run_vmap, quick=240, shards=4, rule="random layouts x 20 operations mapped over 1-3 batches (optionally compiled) compared with the operation on each; non-trivial: several batches"),
        Sub("structures", struct_strategy, run_struct, quick=160, shards=8, rule="programs of 1-3 operations on a hash table, priority queue, queue or stack run eagerly, compiled as a whole and mapped over two inputs; "
            "every leaf of the results and of the structure agrees; non-trivial: several operations")]
SUBS += x64(SUBS, forms=200, vmap=40, structures=20)
