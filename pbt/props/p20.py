"""P20: shape operations act on batch axes like NumPy, never on field axes."""
import jax
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt import plans
from pbt.common import check, Sub, x64
from xtructure import numpy as xnp

OPS = ["reshape", "reshape", "flatten", "ravel", "transpose", "transpose", "swapaxes", "swapaxes", "moveaxis", "expand_dims", "squeeze", "broadcast_to", "broadcast_to",
       "repeat", "roll", "flip", "rot90", "atleast_1d", "atleast_2d", "atleast_3d"]
RULE = ("random layouts (mixed intrinsic ranks, or all-scalar fields for negative and omitted axes) x batch ranks 0-4 including empty and unit axes x chains of 1-4 "
        "shape operations with random valid arguments, as function, method or jitted; oracle: the NumPy operation on an array of batch positions; "
        "non-trivial: some operation changes the order or shape of more than one position and some field has intrinsic axes or two operations are chained")
BATCHES = [[], [1], [4], [6], [2, 3], [3, 1], [2, 2], [2, 1, 3], [4, 3, 2], [1, 2, 2, 3], [0], [2, 0], [12]]
BAD = ["reshape size", "reshape two", "reshape indivisible", "swap oob", "transpose repeat", "transpose short", "single reshape", "single flatten", "broadcast bad", "squeeze bad"]


def specs():
    scalars = L.spec_strategy(max_fields=3, shapes=[[]], packed=False, nest_shapes=([],), depth=1)
    return st.one_of(L.spec_strategy(max_fields=3), L.spec_strategy(max_fields=4, min_fields=2), scalars)


def strategy(shard):
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 10 ** 6)).map(list)
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6), "ops": st.lists(op, min_size=1, max_size=4),
                                  "run": st.sampled_from(["function", "method", "jit"])})


def free_of(spec):
    return all(L.leaf_shape(f, lead) == () for _, f, lead in L.leaves(spec))


def run(case):
    spec, batch = case["spec"], tuple(case["batch"])
    arrs = L.arrays(spec, batch, case["salt"])
    x = L.from_np(spec, arrs)
    free = free_of(spec)
    unit = any(1 in L.leaf_shape(f, lead) for _, f, lead in L.leaves(spec))
    plan = np.arange(int(np.prod(batch))).reshape(batch)
    steps, y, changed = [], x, 0
    for name, seed in case["ops"]:
        rng = np.random.RandomState(seed)
        a = plans.args_for(name, rng, plan.shape, free, unit)
        if a is None:
            continue
        new = plans.apply_plan(name, plan, *a)
        if new.size > plans.SIZE_CAP or new.ndim > plans.RANK_CAP:
            continue
        changed += new.size > 1 and (new.shape != plan.shape or not (new == plan).all())
        before = L.to_np(spec, y)
        static = not any(isinstance(v, np.ndarray) for v in a[0])
        if case["run"] == "jit" and static:
            z = jax.jit(lambda v: plans.call(name, v, *a, False))(y)
        else:
            z = plans.call(name, y, *a, case["run"] == "method")
        what = f"{name}{a[0]}{a[1] or ''} of batch {plan.shape}"
        check(type(z) is type(x), "{}: class {}", what, type(z))
        d = L.same(plans.gather(arrs, batch, new), L.to_np(spec, z))
        check(d is None, "{}: {}", what, d)
        if "packed" not in L.tags(spec):
            check(z.shape.batch == new.shape, "{}: batch shape {}, expected {}", what, z.shape.batch, new.shape)
        d = L.same(before, L.to_np(spec, y))
        check(d is None, "{} changed its input: {}", what, d)
        y, plan = z, new
        steps.append(name)
    return changed > 0 and (not free or len(steps) > 1), [case["run"], "scalars" if free else "intrinsic", *steps]


def bad_strategy(shard):
    return st.fixed_dictionaries({"spec": specs(), "batch": st.sampled_from([[4], [2, 3], [4, 3, 2], [6], [3, 1]]), "bad": st.sampled_from(BAD), "k": st.integers(0, 100),
                                  "method": st.booleans()})


def run_bad(case):
    spec, batch, k = case["spec"], tuple(case["batch"]), case["k"]
    bad, r, n = case["bad"], len(batch), int(np.prod(batch))
    x = L.from_np(spec, L.arrays(spec, () if bad.startswith("single") else batch, k))
    m = case["method"]
    if bad == "reshape size":
        f = lambda: plans.call("reshape", x, ((n + 1 + k,),), {}, m)
    elif bad == "reshape two":
        f = lambda: plans.call("reshape", x, ((-1, -1),), {}, m)
    elif bad == "reshape indivisible":
        f = lambda: plans.call("reshape", x, ((n + 1, -1),), {}, m)
    elif bad == "swap oob":
        f = lambda: plans.call("swapaxes", x, ((0, r + k % 3), (-r - 1, 0), (r, r))[k % 3], {}, m)
    elif bad == "transpose repeat":
        f = lambda: plans.call("transpose", x, (), {"axes": (0,) * max(2, r)}, m)
    elif bad == "transpose short":
        f = lambda: plans.call("transpose", x, (), {"axes": tuple(range(r + 1)) if k % 2 or r == 1 else tuple(range(r - 1))}, m)
    elif bad == "single reshape":
        f = lambda: plans.call("reshape", x, ((1,),), {}, m)
    elif bad == "single flatten":
        f = lambda: plans.call("flatten", x, (), {}, m)
    elif bad == "broadcast bad":
        f = lambda: plans.call("broadcast_to", x, ((*batch[:-1], 5),), {}, m) if batch[-1] != 1 else plans.call("broadcast_to", x, ((7, 2),), {}, m)
    else:
        big = [i for i, d in enumerate(batch) if d != 1]
        f = lambda: plans.call("squeeze", x, (big[k % len(big)],), {}, m)
    try:
        z = f()
    except Exception:
        return True, [bad]
    check(False, "{} of batch {} accepted: result batch {}", bad, batch, z.shape.batch)


SUBS = [Sub("chain", strategy, run, quick=2100, shards=7, rule=RULE),
        Sub("refuse", bad_strategy, run_bad, quick=200, shards=1, rule="invalid arguments (wrong size, two or indivisible -1, axes out of bounds or repeated, single instances) are refused; "
            "non-trivial: every case")]
SUBS += x64(SUBS, chain=200)
