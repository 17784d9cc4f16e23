"""P11: save / load round trip."""
import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, x64
from xtructure.io import load, save

RULE = ("random classes (all dtypes, bit widths, nesting, packed fields), contents with extreme integers and arbitrary float bit patterns, "
        "batch shapes, path spellings; non-trivial: more than one stored leaf and a batch, nesting, bit-limited or packed field")
BATCHES = [[], [1], [4], [2, 3], [0], [2, 1, 2]]
PATHS = ["x.npz", "sub/deep/x.npz", "noext", "with space.npz", "dot.v1.npz", "dot.v1", "X.NPZ.npz"]


LARGE = [[256], [300], [257, 2], [2, 257], [65536], [66000], [3, 33000]]


def large_strategy(shard):
    one = st.fixed_dictionaries({"batch": st.sampled_from(LARGE), "salt": st.integers(0, 10 ** 6), "packed": st.sampled_from([None, True, False]),
                                 "save": st.sampled_from(["fn", "method"]), "load": st.sampled_from(["fn", "method"]), "content": st.sampled_from(["raw", "raw", "default"])})
    return st.fixed_dictionaries({"spec": L.spec_strategy(max_fields=2, depth=1, shapes=[[], [3], [2, 2]], fills=True), "path": st.just("x.npz"), "pathlike": st.just(False),
                                  "cwd": st.just(False), "saves": st.lists(one, min_size=1, max_size=1)})


def strategy(shard):
    bits_shapes = L.SHAPES if shard % 4 else [[], [3], [2, 2]]
    spec = L.spec_strategy(shapes=bits_shapes, bits=shard % 4 == 0, fills=True)
    one = st.fixed_dictionaries({"batch": st.sampled_from(BATCHES if shard % 4 else BATCHES[:3]), "salt": st.integers(0, 10 ** 6), "packed": st.sampled_from([None, True, False]),
                                 "save": st.sampled_from(["fn", "method"]), "load": st.sampled_from(["fn", "method"]),
                                 "content": st.sampled_from(["raw", "raw", "raw", "default", "uneven"])})
    return st.fixed_dictionaries({"spec": spec, "path": st.sampled_from(PATHS), "pathlike": st.booleans(), "cwd": st.booleans(),
                                  "saves": st.lists(one, min_size=1, max_size=2)})


def make(spec, s):
    if s["content"] == "default":
        return L.build(spec).default(tuple(s["batch"]))
    if s["content"] == "uneven":  # fields with different batch shapes ("unstructured")
        arrs = {}
        for i, (k, v) in enumerate(L.raw_arrays(spec, tuple(s["batch"]), s["salt"]).items()):
            arrs[k] = np.stack([v] * (1 + i % 3)) if i % 2 else v
        return L.from_np(spec, arrs)
    return L.from_np(spec, L.raw_arrays(spec, tuple(s["batch"]), s["salt"]))


def run(case):
    spec = case["spec"]
    cls = L.build(spec)
    d = tempfile.mkdtemp(prefix="pbt_p11_")
    old = os.getcwd()
    try:
        if case["cwd"]:
            os.chdir(d)
            path = case["path"]
        else:
            path = os.path.join(d, case["path"])
        p = pathlib.Path(path) if case["pathlike"] else path
        for s in case["saves"]:
            x = make(spec, s)
            before = L.to_np(spec, x)
            kw = {} if s["packed"] is None else {"packed": s["packed"]}
            if s["save"] == "fn":
                save(p, x, **kw)
            else:
                x.save(p, **kw)
            diff = L.same(before, L.to_np(spec, x))
            check(diff is None, "saving altered the instance: {}", diff)
            y = load(p) if s["load"] == "fn" else cls.load(p)
            check(type(y) is cls, "loaded a {}, saved a {}", type(y), cls)
            diff = L.same(before, L.to_np(spec, y))
            check(diff is None, "loaded instance differs: {}", diff)
            check(y.shape == x.shape and y.structured_type == x.structured_type, "loaded shape {} {}, saved {} {}", y.shape, y.structured_type, x.shape, x.structured_type)
            y.save(p)
            diff = L.same(before, L.to_np(spec, load(p)))
            check(diff is None, "second round trip differs: {}", diff)
        files = [f for _, _, fs in os.walk(d) for f in fs]
        check(len(files) == 1, "saving to one path left files {}", files)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    t = L.tags(spec)
    lab = t | {"content:" + s["content"] for s in case["saves"]} | {"path:" + case["path"]}
    if len(case["saves"]) > 1:
        lab.add("overwritten")
    return len(L.leaves(spec)) > 1 and (any(s["batch"] for s in case["saves"]) or bool(t & {"nested", "bits", "packed"})), sorted(lab)


SUBS = [Sub("roundtrip", strategy, run, quick=1500, shards=7, rule=RULE),
        Sub("large", large_strategy, run, quick=70, thorough=1200, shards=1,
            rule="batches whose axes or sizes exceed 2^8 and 2^16, few fields; non-trivial as above")]
SUBS += x64(SUBS, roundtrip=200)
