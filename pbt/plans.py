"""Batch operations as index plans: the oracle applies the NumPy operation to an array of batch positions.

Each op is (name, seed); args_for(name, rng, shape, free) picks valid arguments for a batch shape.  `free` means every field
is scalar, so negative, omitted and field-relative axes mean the same for every field and may be used.
"""
import jax.numpy as jnp
import numpy as np

from xtructure import numpy as xnp

RANK_CAP, SIZE_CAP = 4, 240


def factor(rng, n, parts):
    """A random shape of `parts` dimensions with product n."""
    out = [1] * parts
    if n == 0:
        out[rng.randint(parts)] = 0
        return tuple(out)
    d = 2
    while n > 1:
        while n % d == 0:
            out[rng.randint(parts)] *= d
            n //= d
        d += 1
    return tuple(out)


def _ax(rng, rank, free):
    a = rng.randint(rank)
    return a - rank if free and rng.rand() < 0.4 else a


def args_for(name, rng, shape, free, unit_intrinsic=False):
    """(args, kwargs) or None when the op does not apply."""
    r, n = len(shape), int(np.prod(shape))
    if name == "reshape":
        if r == 0:
            return None
        new = list(factor(rng, n, rng.randint(1, RANK_CAP + 1)))
        if rng.rand() < 0.4:
            i = rng.randint(len(new))
            if int(np.prod(new[:i] + new[i + 1:])) != 0:
                new[i] = -1
        return (tuple(new),), {}
    if name in ("flatten", "ravel"):
        return None if r == 0 else ((), {})
    if name == "transpose":
        if rng.rand() < 0.3:
            return (), {}
        p = [int(a) - (r if rng.rand() < 0.3 else 0) for a in rng.permutation(r)]
        return (), {"axes": tuple(p)}
    if name == "swapaxes":
        if r == 0:
            return None
        return tuple(int(rng.randint(r)) - (r if rng.rand() < 0.4 else 0) for _ in range(2)), {}
    if name == "moveaxis":
        if r == 0:
            return None
        if rng.rand() < 0.5:
            return (_ax(rng, r, free), _ax(rng, r, free)), {}
        k = rng.randint(1, r + 1)
        return (tuple(int(a) for a in rng.permutation(r)[:k]), tuple(int(a) for a in rng.permutation(r)[:k])), {}
    if name == "expand_dims":
        if r >= RANK_CAP:
            return None
        a = rng.randint(r + 1)
        return (int(a - (r + 1) if free and rng.rand() < 0.4 else a),), {}
    if name == "squeeze":
        ones = [i for i, d in enumerate(shape) if d == 1]
        if rng.rand() < 0.3 and not unit_intrinsic:
            return (), {}
        if not ones:
            return None
        if rng.rand() < 0.5:
            a = ones[rng.randint(len(ones))]
            return (int(a - r if free and rng.rand() < 0.4 else a),), {}
        return (tuple(ones[:1 + rng.randint(len(ones))]),), {}
    if name == "broadcast_to":
        new = [d if d != 1 or rng.rand() < 0.5 else int(rng.randint(1, 4)) for d in shape]
        while len(new) < RANK_CAP and rng.rand() < 0.4:
            new = [int(rng.randint(1, 4))] + new
        return (tuple(new),), {}
    if name == "repeat":
        if r == 0:
            return None
        if free and rng.rand() < 0.25:
            return (int(rng.randint(0, 4)),), {}
        a = _ax(rng, r, free)
        if rng.rand() < 0.6:
            return (int(rng.randint(0, 4)),), {"axis": a}
        return (rng.randint(0, 3, shape[a]),), {"axis": a}
    if name == "roll":
        if r == 0:
            return None
        if free and rng.rand() < 0.25:
            return (int(rng.randint(-9, 10)),), {}
        if rng.rand() < 0.7:
            return (int(rng.randint(-9, 10)),), {"axis": _ax(rng, r, free)}
        k = rng.randint(1, r + 1)
        return (tuple(int(s) for s in rng.randint(-5, 6, k)),), {"axis": tuple(int(a) for a in rng.permutation(r)[:k])}
    if name == "flip":
        if free and rng.rand() < 0.25:
            return (), {}
        if r == 0:
            return None
        if rng.rand() < 0.7:
            return (), {"axis": _ax(rng, r, free)}
        return (), {"axis": tuple(int(a) for a in rng.permutation(r)[:rng.randint(1, r + 1)])}
    if name == "rot90":
        if r < 2:
            return None
        ax = [int(a) - (r if free and rng.rand() < 0.3 else 0) for a in rng.permutation(r)[:2]]
        return (), {"k": int(rng.randint(-3, 6)), "axes": tuple(ax)} if rng.rand() < 0.8 else {}
    if name in ("atleast_1d", "atleast_2d", "atleast_3d"):
        return ((), {}) if free or r >= int(name[8]) else None
    raise KeyError(name)


NP = {"ravel": lambda p: p.reshape(-1), "flatten": lambda p: p.reshape(-1), "reshape": lambda p, s: p.reshape(s)}


def apply_plan(name, plan, args, kwargs):
    return NP.get(name, getattr(np, name, None))(plan, *args, **kwargs)


def gather(arrs, batch, plan):
    """Expected leaves: batch positions of `plan` (indices into the flattened original batch)."""
    r = len(batch)
    out = {}
    for p, a in arrs.items():
        flat = a.reshape((int(np.prod(batch)),) + a.shape[r:]) if r else a.reshape((1,) + a.shape)
        out[p] = flat[plan]
    return out


METHODS = {"reshape", "flatten", "transpose", "swapaxes", "moveaxis", "squeeze", "expand_dims", "broadcast_to", "roll", "flip", "rot90"}


def call(name, x, args, kwargs, method):
    args = tuple(jnp.asarray(a) if isinstance(a, np.ndarray) else a for a in args)
    if method and name in METHODS:
        return getattr(x, name)(*args, **kwargs)
    return getattr(xnp, name)(x, *args, **kwargs)
