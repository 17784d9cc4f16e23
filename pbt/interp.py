"""Stand-ins for an accelerator: Pallas kernels run in JAX's interpreter, and jax.default_backend may report another platform.

The kernel bodies, their grids and everything around them are the library's; only the compiler behind pallas_call changes.
Import this before xtructure.  PBT_PLATFORM=gpu|tpu makes the library take its paths for that platform.
"""
import os

import jax
import jax.numpy as jnp
from jax.experimental import pallas as pl
from jax.experimental.pallas import triton as pl_triton

_call = pl.pallas_call


def pallas_call(kernel, *args, **kw):
    kw.pop("backend", None)
    kw.pop("compiler_params", None)
    kw["interpret"] = True
    return _call(kernel, *args, **kw)


def atomic_or(ref, idx, val, mask=None):
    """One program at a time: the interpreter has no concurrency to be atomic against."""
    old = ref[idx]
    ref[idx] = old | val if mask is None else jnp.where(mask, old | val, old)
    return old


def install():
    pl.pallas_call = pallas_call
    pl_triton.atomic_or = atomic_or
    platform = os.environ.get("PBT_PLATFORM")
    if platform:
        jax.default_backend = lambda: platform


install()
