"""P17: equality and comparison follow the field contents."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, x64
from xtructure import numpy as xnp

RULE = ("random layouts x batch shapes; pairs that are identical, differ in exactly one element of one leaf (every leaf and end position is reached), only "
        "in the sign of zero, in NaN, within or just outside a tolerance, or unrelated; non-trivial: the pair differs in exactly one leaf of several")
BATCHES = [[], [], [1], [3], [2, 3], [0], [5]]
TOLS = [(1e-5, 1e-8), (0.1, 0.0), (0.0, 0.5), (0.0, 0.0)]


def strategy(shard):
    return st.fixed_dictionaries({
        "spec": st.one_of(L.spec_strategy(max_fields=4, min_fields=2), L.spec_strategy(max_fields=4, min_fields=2), L.spec_strategy(max_fields=3)), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 10 ** 6),
        "how": st.sampled_from(["same", "one", "one", "one", "one", "zero", "nan both", "nan one", "near", "far", "other"]),
        "leaf": st.integers(0, 30), "pos": st.sampled_from([0, -1, 1, 7]), "tol": st.integers(0, 3), "equal_nan": st.booleans(), "special": st.booleans(),
        "run": st.sampled_from(["eager", "jit", "jit", "method"])})


def is_float(a):
    return a.dtype.kind not in "uib"


def content(spec, batch, salt, special):
    out = L.raw_arrays(spec, batch, salt) if special else L.arrays(spec, batch, salt)
    for p, a in out.items():
        if is_float(a):  # no denormals: the platform may treat them as zero
            with np.errstate(all="ignore"):
                m = np.abs(a.astype(np.float64))
            tiny = float(jnp.finfo(a.dtype).tiny)
            out[p] = np.where((m < tiny) & (m > 0), np.ones((), a.dtype), a)
    return out


def derive(spec, batch, a, case):
    """Second operand and the set of leaves that differ by value."""
    b = {p: v.copy() for p, v in a.items()}
    how, lv = case["how"], L.leaves(spec)
    if how == "other":
        return content(spec, batch, case["salt"] + 1, case["special"])
    cand = [p for p, f, _ in lv if a[p].size and (how not in ("zero", "nan both", "nan one", "near", "far") or is_float(a[p]))]
    if how == "same" or not cand:
        return b
    p = cand[case["leaf"] % len(cand)]
    flat, src = b[p].reshape(-1), a[p].reshape(-1)
    i = case["pos"] % flat.size
    if how == "one":
        if flat.dtype == bool:
            flat[i] = not flat[i]
        elif is_float(flat):
            flat[i] = 3 if np.isnan(flat[i].astype(np.float64)) or abs(float(flat[i])) != 3 else 5
        else:
            flat.view(f"uint{8 * flat.dtype.itemsize}")[i] ^= np.array(1 << (case["leaf"] % (8 * flat.dtype.itemsize)), f"uint{8 * flat.dtype.itemsize}")
    elif how == "zero":
        src[i], flat[i] = 0.0, -0.0
    elif how == "nan both":
        src[i] = flat[i] = np.nan
    elif how == "nan one":
        flat[i] = np.nan
    else:
        src[i] = 4.0
        flat[i] = 4.25 if how == "near" else 8.0
    a[p], b[p] = src.reshape(a[p].shape), flat.reshape(b[p].shape)
    return b


def run(case):
    spec, batch = case["spec"], tuple(case["batch"])
    a = content(spec, batch, case["salt"], case["special"])
    b = derive(spec, batch, a, case)
    x, y = L.from_np(spec, a), L.from_np(spec, b)
    rtol, atol = TOLS[case["tol"]]
    kw = dict(rtol=rtol, atol=atol, equal_nan=case["equal_nan"])
    same = {p: a[p] == b[p] for p in a}
    want_eq = all(s.all() for s in same.values())
    close = {p: np.asarray(jnp.isclose(jnp.asarray(a[p]), jnp.asarray(b[p]), **kw)) for p in a}
    want_close = all(c.all() for c in close.values())

    def ops(x, y):
        return x == y, x != y, xnp.equal(x, y), xnp.not_equal(x, y), xnp.isclose(x, y, **kw), xnp.allclose(x, y, **kw), xnp.allclose(x, y), y == x

    def methods(x, y):
        return x == y, x != y, x.equal(y), x.not_equal(y), x.isclose(y, rtol, atol, case["equal_nan"]), x.allclose(y, rtol, atol, case["equal_nan"]), x.allclose(y), y == x
    f = {"eager": ops, "jit": jax.jit(ops), "method": methods}[case["run"]]
    eq, ne, el, nel, cl, acl, acl0, eq2 = f(x, y)
    for r, name in ((eq, "=="), (ne, "!="), (acl, "allclose")):
        check(np.asarray(r).shape == () and np.asarray(r).dtype == bool, "{} returned {}", name, r)
    check(bool(eq) == want_eq and bool(eq2) == want_eq, "x == y is {}, y == x is {}, the fields say {} ({})", bool(eq), bool(eq2), want_eq, case["how"])
    check(bool(ne) == (not want_eq), "x != y is {} while the fields say equal={} ({})", bool(ne), want_eq, case["how"])
    for got, want, name in ((el, same, "equal"), (nel, {p: ~s for p, s in same.items()}, "not_equal"), (cl, close, "isclose")):
        check(type(got) is type(x), "{} returned a {}", name, type(got))
        d = L.same({p: np.asarray(w) for p, w in want.items()}, L.to_np(spec, got))
        check(d is None, "{}: {}", name, d)
    check(bool(acl) == want_close, "allclose({}) is {}, the fields say {}", kw, bool(acl), want_close)
    want0 = all(np.asarray(jnp.isclose(jnp.asarray(a[p]), jnp.asarray(b[p]))).all() for p in a)
    check(bool(acl0) == want0, "allclose with default tolerances is {}, the fields say {}", bool(acl0), want0)
    # comparison with something else
    if case["run"] == "eager":
        other = L.build({"fields": spec["fields"] + [["extra_", L.P("uint8")]]}).default(batch)
        for o in (other, None, 3, "text", a):
            check((x == o) is False and (x != o) is True, "comparison with {!r} is not plainly unequal", type(o))
        check(bool(x == x) == all((v == v).all() for v in a.values()), "x == x is {}", bool(x == x))
    for inst, arrs in ((x, a), (y, b)):
        d = L.same(arrs, L.to_np(spec, inst))
        check(d is None, "comparison changed its operand: {}", d)
    differing = sum(not s.all() for s in same.values())
    return differing == 1 and len(a) > 1, [case["how"], case["run"], "equal" if want_eq else "different"]


SUBS = [Sub("compare", strategy, run, quick=700, shards=8, rule=RULE)]
SUBS += x64(SUBS, compare=80)
