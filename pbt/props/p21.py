"""P21: joining, splitting, padding and tiling preserve every element in order."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt import plans
from pbt.common import check, Sub, x64
from pbt.props.p20 import free_of, specs
from xtructure import numpy as xnp

BATCHES = [[], [1], [3], [4], [2, 3], [3, 1], [1, 4], [2, 1, 3], [3, 2, 2], [0], [2, 0]]
JOINS = ["concat", "concat", "concatenate", "concatenate", "stack", "stack", "vstack", "hstack", "dstack", "column_stack", "block", "concat flat"]


def maybe_jit(case, f, *args):
    return jax.jit(f)(*args) if case["jit"] else f(*args)


def joined(arr_list, batches, plan):
    """Leaves at the positions `plan` of all inputs' batch positions put one after the other."""
    out = {}
    for p in arr_list[0]:
        flat = [a[p].reshape((int(np.prod(b)),) + a[p].shape[len(b):]) for a, b in zip(arr_list, batches)]
        out[p] = np.concatenate(flat)[plan]
    return out


def index_plans(batches):
    out, off = [], 0
    for b in batches:
        n = int(np.prod(b))
        out.append(np.arange(off, off + n).reshape(b))
        off += n
    return out


def compare(spec, x, want, plan_shape, got, what):
    check(type(got) is type(x), "{}: class {}", what, type(got))
    d = L.same(want, L.to_np(spec, got))
    check(d is None, "{}: {}", what, d)
    if "packed" not in L.tags(spec) and plan_shape is not None:
        check(got.shape.batch == plan_shape, "{}: batch shape {}, expected {}", what, got.shape.batch, plan_shape)


def unchanged(spec, arrs, insts, what):
    for a, x in zip(arrs, insts):
        d = L.same(a, L.to_np(spec, x))
        check(d is None, "{} changed its input: {}", what, d)


# ---------------------------------------------------------------- join
def join_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "op": st.sampled_from(JOINS), "k": st.integers(1, 4),
                                  "axis": st.integers(0, 30), "neg": st.booleans(), "seed": st.integers(0, 10 ** 6), "jit": st.sampled_from([False, False, False, True]),
                                  "tuple": st.booleans(), "back": st.booleans()})


def run_join(case):
    spec, batch, op, k = case["spec"], tuple(case["batch"]), case["op"], case["k"]
    rng = np.random.RandomState(case["seed"])
    free, r = free_of(spec), len(batch)
    if op in ("concat", "concatenate") and (r == 0 and k == 1):
        k = 2
    axis = case["axis"] % (r + 1 if op == "stack" or r == 0 else r)
    batches = [batch] * k
    if op in ("concat", "concatenate", "concat flat") and r:
        batches = [tuple(int(rng.randint(0, 5)) if i == axis and j else d for i, d in enumerate(batch)) for j in range(k)]
    if op in ("vstack", "hstack", "dstack", "column_stack") and not free and r < {"vstack": 2, "hstack": 2, "dstack": 3, "column_stack": 2}[op]:
        return False, ["not applicable"]
    if op in ("block", "concat flat") and not free:
        return False, ["not applicable"]
    ins = [L.arrays(spec, b, case["salt"] + 31 * j) for j, b in enumerate(batches)]
    xs = [L.from_np(spec, a) for a in ins]
    ps = index_plans(batches)
    if op in ("concat", "concatenate", "stack"):
        if op == "stack" or r == 0:
            plan, a = np.stack(ps, axis=axis), axis - (r + 1) * case["neg"]
        else:
            plan, a = np.concatenate(ps, axis=axis), axis - r * case["neg"]
        f = lambda vs: getattr(xnp, op)(vs, axis=a)
        what = f"{op} of batches {batches} axis {a}"
        if axis == 0 and not case["neg"] and rng.rand() < 0.5:
            f = lambda vs: getattr(xnp, op)(vs)
    elif op == "concat flat":
        plan = np.concatenate([p.reshape(-1) for p in ps])
        fn = [xnp.concat, xnp.concatenate][case["neg"]]
        f, what = lambda vs: fn(vs, axis=None), f"concat(axis=None) of {batches}"
    elif op == "block":
        nested = case["neg"] and k > 1
        plan = np.block([[p] for p in ps] if nested else ps)
        f, what = lambda vs: xnp.block([[v] for v in vs] if nested else list(vs)), f"block of {batches} nested {nested}"
    else:
        plan = getattr(np, op)(ps)
        f, what = lambda vs: getattr(xnp, op)(vs), f"{op} of batches {batches}"
    z = maybe_jit(case, f, tuple(xs) if case["tuple"] else xs)
    compare(spec, xs[0], joined(ins, batches, plan), plan.shape, z, what)
    unchanged(spec, ins, xs, what)
    if case["back"] and op in ("concat", "concatenate", "vstack") and r >= 2 and k > 1:
        ax = 0 if op == "vstack" else axis
        cuts = [int(c) for c in np.cumsum([b[ax] for b in batches])[:-1]]
        parts = xnp.split(z, cuts, axis=ax)
        check(len(parts) == k, "split gave {} parts of {}", len(parts), k)
        for a, p in zip(ins, parts):
            compare(spec, xs[0], a, None, p, f"split of {what}")
    return k > 1 and plan.size > 1, [op, f"{k} inputs", "scalars" if free else "intrinsic"]


# ---------------------------------------------------------------- split
def split_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from([[6], [4], [12], [4, 3], [2, 6], [6, 4], [2, 3, 4], [1], [3], [0], [5]]), "salt": st.integers(0, 10 ** 6),
                                  "axis": st.integers(0, 30), "neg": st.booleans(), "seed": st.integers(0, 10 ** 6), "by": st.sampled_from(["int", "list", "array", "bad"]),
                                  "jit": st.sampled_from([False, False, True])})


def run_split(case):
    spec, batch, by = case["spec"], tuple(case["batch"]), case["by"]
    rng = np.random.RandomState(case["seed"])
    free, r = free_of(spec), len(batch)
    axis = case["axis"] % r
    n = batch[axis]
    a = axis - r if free and case["neg"] else axis
    arrs = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, arrs)
    if by == "bad":
        sections = [s for s in range(2, 8) if n % s]
        if not sections:
            return False, ["not applicable"]
        s = sections[rng.randint(len(sections))]
        try:
            parts = xnp.split(x, s, axis=a)
        except Exception:
            return True, ["indivisible refused"]
        check(False, "split of {} into {} sections gave {} parts", batch, s, len(parts))
    if by == "int":
        divs = [d for d in range(1, n + 1) if n % d == 0] or [1]
        how = int(divs[rng.randint(len(divs))])
    else:
        how = sorted(int(c) for c in rng.randint(0, n + 1, rng.randint(0, 4)))
    plan = np.arange(int(np.prod(batch))).reshape(batch)
    want = np.split(plan, how, axis=axis)
    case = dict(case, jit=case["jit"] and by != "array")
    arg = jnp.asarray(how, dtype=jnp.int32) if by == "array" else how
    parts = maybe_jit(case, lambda v: xnp.split(v, arg, axis=a) if a or case["neg"] else xnp.split(v, arg), x)
    what = f"split({how}, axis={a}) of batch {batch}"
    check(isinstance(parts, list) and len(parts) == len(want), "{}: {} parts, expected {}", what, len(parts), len(want))
    for w, p in zip(want, parts):
        compare(spec, x, plans.gather(arrs, batch, w), w.shape, p, what)
    unchanged(spec, [arrs], [x], what)
    if len(parts) > 1 and all(p.shape.batch == w.shape for p, w in zip(parts, want)):
        compare(spec, x, arrs, batch, xnp.concat(parts, axis=axis), "concat of " + what)
    return len(want) > 1, [by, f"{min(len(want), 4)} parts"]


# ---------------------------------------------------------------- pad, tile
def pad_strategy(shard):
    sp = st.one_of(L.spec_strategy(max_fields=3, fills=True), L.spec_strategy(max_fields=4, min_fields=2, fills=True))
    return st.fixed_dictionaries({"spec": sp, "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "seed": st.integers(0, 10 ** 6),
                                  "mode": st.sampled_from(["default", "default", "default", "value", "value", "edge", "reflect", "symmetric", "wrap", "bad"]),
                                  "form": st.sampled_from(["int", "pair", "pairs", "pairs", "pairs", "ints"]), "value": st.sampled_from([0, 1, 7, 99]),
                                  "jit": st.sampled_from([False, False, True]), "method": st.booleans()})


def run_pad(case):
    spec, batch, mode = case["spec"], tuple(case["batch"]), case["mode"]
    rng = np.random.RandomState(case["seed"])
    arrs = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, arrs)
    shape = batch or (1,)
    r = len(shape)

    def call(v, pw, *args, **kw):
        return v.pad(pw, *args, **kw) if case["method"] else xnp.pad(v, pw, *args, **kw)
    if mode == "bad":
        k = case["seed"] % 4
        pw = [-1, [(0, 0)] * (r + 1) if r != 1 else [(0, 1), (0, 0), (1, 1)], [(0, -2)] + [(0, 0)] * (r - 1), ()][k]
        if k == 1 and not batch:
            pw = -3
        try:
            z = call(x, pw)
        except (ValueError, TypeError):
            return True, ["bad width refused"]
        check(False, "pad width {} of batch {} accepted: {}", pw, batch, z.shape.batch)
    if mode in ("edge", "reflect", "symmetric", "wrap") and 0 in shape:
        return False, ["not applicable"]
    cap = [3] * r if mode in ("default", "value", "edge") else [d - 1 if mode == "reflect" else d for d in shape]
    form = case["form"]
    if form == "int":
        c = int(rng.randint(0, min(min(cap), 3) + 1))
        pw, norm = c, [(c, c)] * r
    elif form == "pair" and r == 1:
        norm = [tuple(int(v) for v in rng.randint(0, min(cap[0], 3) + 1, 2))]
        pw = norm[0] if case["method"] else list(norm[0])
    elif form == "ints" and r != 2:
        norm = [(int(c), int(c)) for c in (rng.randint(0, min(m, 3) + 1) for m in cap)]
        pw = tuple(c for c, _ in norm)
    else:
        norm = [tuple(int(v) for v in rng.randint(0, min(m, 3) + 1, 2)) for m in cap]
        pw = tuple(norm) if case["method"] else norm
    base = np.arange(int(np.prod(shape))).reshape(shape)
    if mode in ("default", "value"):
        plan = np.pad(base, norm, constant_values=-1)
        kw = {} if mode == "default" else {"constant_values": case["value"]}
        z = maybe_jit(case, lambda v: call(v, pw, **kw), x)
    else:
        plan = np.pad(base, norm, mode=mode)
        z = maybe_jit(case, lambda v: call(v, pw, mode=mode), x)
    what = f"pad({pw}, {mode}) of batch {batch}"
    if all(p == (0, 0) for p in norm):
        compare(spec, x, arrs, batch, z, what)
        return False, ["nothing to pad"]
    want = plans.gather(arrs, batch, np.maximum(plan, 0)) if base.size else {p: np.zeros(plan.shape + a.shape[len(batch):], a.dtype) for p, a in arrs.items()}
    fill = L.default_arrays(spec, plan.shape)
    for p, a in want.items():
        m = (plan < 0).reshape(plan.shape + (1,) * (a.ndim - plan.ndim))
        v = fill[p] if mode == "default" else np.asarray(case["value"]).astype(a.dtype)
        want[p] = np.where(m, v, a).astype(a.dtype)
    compare(spec, x, want, plan.shape, z, what)
    unchanged(spec, [arrs], [x], what)
    return True, [mode, form, f"rank {len(batch)}"]


def tile_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "reps": st.lists(st.integers(0, 3), min_size=1, max_size=4),
                                  "int": st.booleans(), "jit": st.sampled_from([False, False, True])})


def run_tile(case):
    spec, batch = case["spec"], tuple(case["batch"])
    reps = case["reps"][0] if case["int"] else tuple(case["reps"])
    arrs = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, arrs)
    z = maybe_jit(case, lambda v: xnp.tile(v, reps), x)
    compare(spec, x, {p: np.tile(a, reps) for p, a in arrs.items()}, None, z, f"tile({reps}) of batch {batch}")
    if free_of(spec):
        check(z.shape.batch == np.tile(np.zeros(batch), reps).shape, "tile({}) of batch {} has batch {}", reps, batch, z.shape.batch)
    unchanged(spec, [arrs], [x], "tile")
    return int(np.prod(reps)) > 1, ["int" if case["int"] else f"{len(reps)} axes"]


# ---------------------------------------------------------------- refusals
BAD = ["class", "structure", "rank", "dim", "empty", "axis", "array", "stack dim", "stack class", "stack empty", "stack array", "stack structure", "dims", "stack dims", "stack dims"]


def bad_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "alt": st.lists(st.integers(1, 4), min_size=3, max_size=3), "permute": st.booleans(), "bad": st.sampled_from(BAD), "batch": st.sampled_from([[3], [2, 3], [1], [2, 2, 2], [1, 4], [2, 1, 3]]), "swap": st.booleans(), "name": st.booleans(),
                                  "pos": st.integers(0, 2), "axis": st.integers(0, 10)})


def run_bad(case):
    spec, batch, bad = case["spec"], tuple(case["batch"]), case["bad"]
    x = L.from_np(spec, L.arrays(spec, batch, 1))
    r = len(batch)
    axis = case["axis"] % r
    kind = bad.split()[-1]
    join = xnp.stack if bad.startswith("stack") else [xnp.concat, xnp.concatenate][case["name"]]
    if kind == "class":
        other = L.build({"fields": spec["fields"], "name": "Twin" + L.class_name(spec)}).default(batch)
    elif kind == "structure":
        other = L.build(spec).default()
    elif kind == "rank":
        other = L.build(spec).default(batch + (1,))
    elif kind == "dim":
        i = (axis + 1) % r if r > 1 else 0
        if r == 1 and join is not xnp.stack:
            return False, ["not applicable"]
        other = L.build(spec).default(tuple(d + (j == i) for j, d in enumerate(batch)))
    elif kind == "dims":  # any other shape of the rank: a permutation, or unrelated
        alt = tuple(batch[(j + 1 + case["pos"]) % r] for j in range(r)) if case["permute"] else tuple(case["alt"][:r])
        if all(a == b for j, (a, b) in enumerate(zip(alt, batch)) if join is xnp.stack or j != axis):
            return False, ["not applicable"]
        other = L.build(spec).default(alt)
    elif kind == "array":
        other = jnp.zeros(batch)
    else:
        other = x
    xs = [x] * 2
    xs.insert(case["pos"], other)
    if kind == "empty":
        xs = []
    if kind == "axis":
        axis = [r, r + 1, -r - 1][case["axis"] % 3]
    try:
        z = join(xs, axis=axis)
    except (ValueError, TypeError):
        return True, [bad]
    check(False, "{} of {} inputs with a different {} accepted: {}", join.__name__, len(xs), bad, z.shape.batch)


SUBS = [Sub("join", join_strategy, run_join, quick=1000, shards=5,
            rule="random layouts x 1-4 inputs of batch rank 0-3 (different sizes along the joined axis) x concat/concatenate/stack on every axis (also negative), vstack/hstack/dstack/"
                 "column_stack/block on the layouts where batch axes decide; oracle: NumPy on arrays of batch positions; splitting at the sizes restores the inputs; "
                 "non-trivial: several inputs and more than one element"),
        Sub("split", split_strategy, run_split, quick=500, shards=3, rule="random layouts x batch shapes x sections, split points (lists, arrays), axes; indivisible sections are refused; "
            "the parts concatenate back; non-trivial: more than one part"),
        Sub("pad", pad_strategy, run_pad, quick=800, shards=4, rule="random layouts with fills and factories x batch ranks 0-3 x every pad width form x default fill, constant, edge, reflect, symmetric, "
            "wrap; bad widths refused; non-trivial: something is padded"),
        Sub("tile", tile_strategy, run_tile, quick=300, shards=2, rule="random layouts x reps; oracle: numpy.tile of every field array; non-trivial: more than one repetition"),
        Sub("refuse", bad_strategy, run_bad, quick=400, shards=1, rule="joins of mixed classes, structures, ranks, sizes, arrays or nothing are refused; non-trivial: every refused case")]
SUBS += x64(SUBS, join=150, pad=120, split=100)
