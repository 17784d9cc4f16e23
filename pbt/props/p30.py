"""P30: on ordinary arrays the operations are jax.numpy's; arrays and instances do not mix."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import Sub, check, x64
from xtructure import numpy as xnp

RULE = ("every operation that also takes ordinary arrays x arrays of rank 0-4 with zero-length and unit axes, ten dtypes, special floats, as jax or numpy arrays or python scalars x its keyword arguments in and "
        "out of range, eager or jitted; oracle: jax.numpy's function of the same name, compared by container, dtype, shape and bytes, or by refusing; non-trivial: accepted, with two or more elements")
DTS = L.PRIM
SIZES = [0, 1, 2, 2, 3, 3, 4]
integer = st.integers


def shape(lo=0, hi=4):
    return st.lists(st.sampled_from(SIZES), min_size=lo, max_size=hi)


def arr(sh=None, dts=DTS):
    """An array argument: {"A": [dtype, shape, salt, form]}."""
    sh = shape() if sh is None else sh
    return st.tuples(st.sampled_from(dts), sh, integer(0, 99), st.sampled_from(["jax", "jax", "jax", "numpy"])).map(lambda t: {"A": list(t)})


def some(sh, n):
    return st.lists(arr(sh), min_size=n, max_size=n)


def axis(none=True):
    a = st.sampled_from([0, 0, 0, 1, 1, -1, -1, 2, -2, 3, -4, 5])
    return st.one_of(a, a, a, st.none()) if none else a


def dtype(none=True):
    d = st.sampled_from(DTS).map(lambda x: {"D": x})
    return st.one_of(st.none(), st.none(), d) if none else d


def T(s):
    return s.map(lambda v: {"T": list(v)})


def call(args, **kw):
    return st.tuples(st.tuples(*args).map(list), st.fixed_dictionaries({k: st.one_of(st.just({"-": 1}), v) for k, v in kw.items()}))


def joined(n_axis=True):
    """Arrays that agree except along one axis (and sometimes do not)."""
    def build(t):
        sh, ax, sizes, dts, odd, dt0 = t
        out = []
        for i, s in enumerate(sizes):
            one = list(sh)
            if one:
                one[ax % len(one)] = s if n_axis else one[ax % len(one)]
            if odd and i == 1 and one:
                one[-1] += 1
            out.append({"A": [dts[i] if odd else dt0, one, i + s, "jax"]})
        return ax, out
    return st.tuples(shape(0, 3), integer(0, 2), st.lists(st.sampled_from(SIZES), min_size=1, max_size=4), st.lists(st.sampled_from(DTS), min_size=4, max_size=4), integer(0, 7).map(lambda v: v == 7),
                     st.sampled_from(DTS)).map(build)


def joins(**kw):
    return joined().flatmap(lambda t: call([st.just(t[1])], axis=st.one_of(st.just(t[0]), st.just(t[0]), axis()), **kw))


def stacks(**kw):
    return joined(False).flatmap(lambda t: call([st.just(t[1])], **kw))


def mixed(**kw):
    return joined().flatmap(lambda t: call([st.just(t[1])], **kw))


def pads(sh):
    n = len(sh["A"][1])
    w = integer(0, 3)
    per = st.lists(T(st.tuples(w, w)), min_size=n, max_size=n).map(lambda v: {"T": v})
    return st.one_of(call([st.just(sh), st.one_of(w, per, T(st.tuples(w, w)))], mode=st.just("constant"), constant_values=st.sampled_from([0, 1, 7])),
                     call([st.just(sh), st.one_of(w, per)], mode=st.sampled_from(["edge", "reflect", "wrap", "symmetric", "maximum", "nonsense"])))


def factorisations(a):
    sh = a["A"][1]
    n = int(np.prod(sh)) if sh else 1
    opts = [[n], [-1], [1, n], [n, 1], [2, -1], [-1, 3], [1, -1, 1], list(reversed(sh)), sh + [1], [n + 1], [-1, -1]]
    return st.one_of(T(st.sampled_from(opts)), st.sampled_from([n, -1]), st.sampled_from(opts)).flatmap(
        lambda s: call([st.just(a), st.just(s)], order=st.sampled_from(["C", "C", "F"])))


def axes_perm(a):
    n = len(a["A"][1])
    return call([st.just(a)], axes=st.one_of(st.none(), T(st.permutations(list(range(n)))), T(st.permutations(list(range(-n, 0)))), T(st.lists(integer(-2, 3), max_size=4))))


def compatible(a):
    """A shape that broadcasts against a's."""
    def build(t):
        drop, units, extra = t
        sh = [1 if u else s for s, u in zip(a["A"][1], units)]
        return (list(extra) + sh) if drop == 0 else sh[min(drop, len(sh)):]
    return st.tuples(integer(0, 2), st.lists(st.booleans(), min_size=4, max_size=4), st.one_of(st.just([]), st.lists(st.sampled_from([1, 2]), max_size=1))).map(build)


def partner_of(a, dts=DTS):
    return st.one_of(arr(compatible(a), dts), arr(st.just(a["A"][1]), dts), arr(compatible(a), dts), st.sampled_from([0, 1, 2.5, True]))


def pair(f):
    return arr().flatmap(lambda a: partner_of(a).flatmap(lambda b: st.booleans().flatmap(lambda s: f(st.just(b if s else a), st.just(a if s else b)))))


def targets(a):
    sh = a["A"][1]

    def build(t):
        extra, up = t
        return list(extra) + [u if s == 1 else s for s, u in zip(sh, up)]
    good = st.tuples(st.lists(st.sampled_from([1, 2, 3]), max_size=2), st.lists(st.sampled_from([1, 2, 3]), min_size=4, max_size=4)).map(build)
    return call([st.just(a), st.one_of(T(good), T(good), good, T(shape()))])


def takes(a):
    idx = st.one_of(arr(shape(0, 2), ["int32", "uint8", "int16"]), integer(-3, 4), arr(shape(0, 2), ["int32"]))
    return call([st.just(a), idx], axis=axis(), mode=st.sampled_from(["clip", "wrap", "fill"]), fill_value=st.sampled_from([None, 5]), indices_are_sorted=st.just(False), unique_indices=st.just(False))


def along(a):
    sh = a["A"][1]
    ax = integer(-len(sh), max(0, len(sh) - 1))

    def build(k):
        s = list(sh)
        if s:
            s[k] = 3
        return call([st.just(a), arr(st.one_of(st.just(s), st.just(s), shape()), ["int32", "int32", "uint8", "int8"])], axis=st.just(k), mode=st.sampled_from(["clip", "fill"]), fill_value=st.sampled_from([None, 7]))
    return ax.flatmap(build)


def splits(a):
    return call([st.just(a), st.one_of(integer(1, 4), st.lists(integer(0, 5), max_size=3).map(sorted))], axis=axis(False))


def repeats(a):
    sh = a["A"][1]

    def build(ax):
        n = int(np.prod(sh)) if ax is None else sh[ax] if ax < len(sh) else 1
        per = st.lists(integer(0, 3), min_size=n, max_size=n).map(lambda v: {"I": v})
        return st.one_of(call([st.just(a), st.one_of(integer(0, 3), per)], axis=st.just(ax)), call([st.just(a), per], axis=st.just(ax), total_repeat_length=integer(0, 9)))
    return st.sampled_from([None, 0, 0, 1, 2]).flatmap(build)


def likes(*more):
    return call([arr(), *more], dtype=dtype(), shape=st.one_of(st.none(), T(shape(0, 3)), integer(0, 3)))


def blocks():
    d = st.sampled_from(DTS)
    return st.tuples(integer(1, 3), integer(1, 3), integer(1, 3), d, integer(0, 4)).map(
        lambda t: ([[{"A": [t[3], [r, c], r + c + t[4], "jax"]} for c in range(1, t[1] + 1)] for r in range(1, t[0] + 1)], {}) if t[4] else
        ([{"A": [t[3], [c], c, "jax"]} for c in range(t[0])], {})).map(lambda t: ([t[0]], t[1]))


shift = st.one_of(integer(-7, 7), T(st.lists(integer(-4, 4), min_size=1, max_size=2)))
axs = st.one_of(axis(), T(st.lists(axis(False), min_size=1, max_size=2)))
OPS = {
    "concat": joins(), "concatenate": joins(dtype=dtype()), "pad": arr().flatmap(pads), "stack": stacks(axis=axis(False), dtype=dtype()), "reshape": arr().flatmap(factorisations),
    "ravel": call([arr()], order=st.sampled_from(["C", "F"])), "flatten": call([arr()], order=st.sampled_from(["C", "F"])),
    "where": st.one_of(arr(dts=["bool", "bool", "int32"]).flatmap(lambda c: partner_of(c).flatmap(lambda x: partner_of(c).flatmap(lambda y: call([st.just(c), st.just(x), st.just(y)])))),
                       call([arr(dts=["bool", "uint8"])], size=st.one_of(st.none(), integer(0, 6)), fill_value=st.sampled_from([None, 3]))),
    "take": arr().flatmap(takes), "take_along_axis": arr(shape(1, 3)).flatmap(along), "tile": call([arr(shape(0, 3)), st.one_of(integer(0, 3), T(st.lists(integer(0, 3), max_size=4)))]),
    "transpose": arr().flatmap(axes_perm), "swapaxes": call([arr(), axis(False), axis(False)]), "expand_dims": call([arr()], axis=st.one_of(axis(False), T(st.lists(axis(False), min_size=1, max_size=2)))),
    "squeeze": call([arr()], axis=st.one_of(axis(), T(st.lists(axis(False), max_size=2)))), "repeat": arr(shape(0, 3)).flatmap(repeats), "split": arr(shape(1, 3)).flatmap(splits),
    "full_like": likes(st.sampled_from([0, 7, 2.5, True])), "zeros_like": likes(), "ones_like": likes(), "equal": pair(lambda a, b: call([a, b])), "not_equal": pair(lambda a, b: call([a, b])),
    "isclose": pair(lambda a, b: call([a, b], rtol=st.sampled_from([0.0, 0.5]), atol=st.sampled_from([0.0, 1.0]), equal_nan=st.booleans())),
    "allclose": pair(lambda a, b: call([a, b], rtol=st.sampled_from([0.0, 0.5, 10.0]), atol=st.sampled_from([0.0, 1.0, 1e9]), equal_nan=st.booleans())),
    "moveaxis": st.one_of(call([arr(), axis(False), axis(False)]), call([arr(), T(st.lists(axis(False), min_size=2, max_size=2)), T(st.lists(axis(False), min_size=2, max_size=2))])),
    "broadcast_to": arr().flatmap(targets), "broadcast_arrays": arr().flatmap(lambda a: st.lists(partner_of(a), max_size=2).map(lambda bs: ([a] + bs, {}))),
    "atleast_1d": st.lists(arr(shape(0, 2)), min_size=1, max_size=3).map(lambda v: (v, {})), "atleast_2d": st.lists(arr(shape(0, 2)), min_size=1, max_size=3).map(lambda v: (v, {})),
    "atleast_3d": st.lists(arr(shape(0, 3)), min_size=1, max_size=3).map(lambda v: (v, {})), "vstack": mixed(dtype=dtype()), "hstack": mixed(dtype=dtype()), "dstack": mixed(dtype=dtype()),
    "column_stack": mixed(), "block": blocks(), "roll": call([arr(), shift], axis=axs), "flip": call([arr()], axis=axs), "rot90": call([arr(shape(1, 4))], k=integer(-5, 5), axes=T(st.tuples(axis(False), axis(False)))),
    "astype": call([arr(), dtype(False)]), "result_type": st.lists(st.one_of(arr(shape(0, 1)), dtype(False), st.sampled_from([1, 2.5, True])), min_size=1, max_size=3).map(lambda v: (v, {})),
    "can_cast": call([dtype(False), dtype(False)], casting=st.sampled_from(["safe", "same_kind", "no", "unsafe"])),
}
TRACED = set(OPS) - {"result_type", "can_cast"}


def strategy(shard):
    names = sorted(OPS)[shard % 4::4]
    return st.sampled_from(names).flatmap(lambda n: st.tuples(OPS[n], integer(0, 3)).map(lambda t: {"op": n, "args": t[0][0], "kw": {k: v for k, v in t[0][1].items() if v != {"-": 1}}, "jit": t[1] == 0}))


def content(dt, sh, salt):
    n = int(np.prod(sh)) if sh else 1
    r = np.random.RandomState(salt * 131 + n)
    a = r.randint(0, 5, n) if salt % 3 else r.randint(0, 2 ** 31 - 1, n)
    t = L.npdt(dt)
    if t.kind in "fV" or dt == "bfloat16":
        a = np.where(r.rand(n) < 0.2, r.choice([np.nan, np.inf, -0.0, -np.inf], n), (a - 2) / 4)
    elif t.kind == "i" and salt % 2:
        a = a - 3
    return np.asarray(a).astype(t).reshape(sh)


def decode(v, take):
    if isinstance(v, dict):
        if "A" in v:
            dt, sh, salt, form = v["A"]
            a = content(dt, sh, salt)
            return take(jnp.asarray(a)) if form == "jax" else a
        if "D" in v:
            return L.DT[v["D"]]
        if "T" in v:
            return tuple(decode(w, take) for w in v["T"])
        return jnp.asarray(v["I"], dtype=jnp.int32)
    if isinstance(v, list):
        return [decode(w, take) for w in v]
    return v


def outcome(f, case):
    arrays = []

    def whole(given):
        it = iter(given)

        def take(a):
            return next(it)
        args = [decode(v, take) for v in case["args"]]
        return f(*args, **{k: decode(v, take) for k, v in case["kw"].items()})

    def note(a):
        arrays.append(a)
        return a
    for v in case["args"]:
        decode(v, note)
    try:
        out = jax.jit(whole)(arrays) if case["jit"] and case["op"] in TRACED else whole(arrays)
        return True, out
    except Exception as e:
        return False, type(e).__name__


def describe(out):
    """(kind, content) tree of a result."""
    if isinstance(out, (list, tuple)):
        return [type(out).__name__, [describe(o) for o in out]]
    if isinstance(out, (bool, np.dtype, type)):
        return [type(out).__name__, str(out)]
    a = np.asarray(out)
    return [str(a.dtype), list(a.shape), a.tobytes().hex(), bool(getattr(out, "weak_type", False))]


def run(case):
    op = case["op"]
    ok, want = outcome(getattr(jnp, "ravel" if op == "flatten" else op), case)
    mine, got = outcome(getattr(xnp, op), case)
    check(mine == ok, "{}: {}, jax.numpy {}", op, "accepted" if mine else f"raised {got}", "accepts" if ok else f"raises {want}")
    if not ok:
        return False, [op, "refused"]
    want, got = describe(want), describe(got)
    if op == "split":  # a list either way
        got[0], want[0] = "list", "list"
    check(want == got, "{} of {} with {}{} is {}, jax.numpy gives {}", op, str(case["args"])[:300], case["kw"], " (jitted)" if case["jit"] else "", str(got)[:300], str(want)[:300])
    big = [a for a in jax.tree_util.tree_leaves(case["args"], is_leaf=lambda v: isinstance(v, dict) and "A" in v) if isinstance(a, dict) and "A" in a and int(np.prod(a["A"][1])) > 1]
    return bool(big) or op in ("result_type", "can_cast"), [op, "jit" if case["jit"] else "eager"]


# ---------------------------------------------------------------- arrays among instances
SEQ = ["concat", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"]


def mix_strategy(shard):
    return st.fixed_dictionaries({"spec": L.spec_strategy(max_fields=2, depth=1), "n": integer(1, 3), "op": st.sampled_from(SEQ + ["where x", "where y missing", "where structure", "update", "update structure", "empty"]),
                                  "at": integer(0, 3), "salt": integer(0, 1000), "seq": st.sampled_from(SEQ), "as": st.sampled_from(["jax", "numpy", "scalar", "leaf"])})


def run_mix(case):
    spec, n, op = case["spec"], case["n"], case["op"]
    a = L.arrays(spec, (n,), case["salt"])
    x = L.from_np(spec, a)
    leaf = jax.tree_util.tree_leaves(x)[0]
    other = {"jax": jnp.zeros((n,)), "numpy": np.zeros((n,), np.float32), "scalar": 1.0, "leaf": leaf}[case["as"]]
    bigger = {"fields": spec["fields"] + [["one_more", L.P("uint8")]]}
    y = L.from_np(bigger, L.arrays(bigger, (n,), case["salt"]))
    cond = jnp.ones((n,), dtype=bool)
    todo = {"where x": lambda: xnp.where(cond, other, x), "where y missing": lambda: xnp.where(cond, x), "where structure": lambda: xnp.where(cond, x, y),
            "update": lambda: xnp.update_on_condition(leaf, jnp.arange(n), cond, x), "update structure": lambda: xnp.update_on_condition(x, jnp.arange(n), cond, y)}
    if op in SEQ:
        items = [x] * 2
        items.insert(case["at"] % 3, other)
        f, kind = (lambda: getattr(xnp, op)(items)), TypeError
    elif op == "empty":
        f, kind = (lambda: getattr(xnp, case["seq"])([])), ValueError
    else:
        f, kind = todo[op], TypeError
    try:
        z = f()
    except kind:
        pass
    except Exception as e:
        check(False, "{} of an instance and {} raises {} instead of a {}: {}", op, case["as"], type(e).__name__, kind.__name__, str(e)[:200])
    else:
        check(False, "{} of an instance and {} is accepted: {}", op, case["as"], str(jax.tree_util.tree_map(np.shape, z))[:300])
    d = L.same(a, L.to_np(spec, x))
    check(d is None, "a refused {} changed its operand: {}", op, d)
    return op != "empty", [op]


SUBS = [Sub("arrays", strategy, run, quick=2400, thorough=40000, shards=4, rule=RULE),
        Sub("mixing", mix_strategy, run_mix, quick=300, shards=1, rule="random layouts; joining, selecting and updating with an array, scalar, own leaf or instance of another structure among the operands must raise a TypeError "
                                                                      "(an empty list a ValueError) and leave the operands alone; non-trivial: not the empty list")]
SUBS += x64(SUBS, arrays=300)
