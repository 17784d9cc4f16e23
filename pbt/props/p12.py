"""P12: damaged, foreign and mismatched files are refused on load."""
import hashlib
import io as pyio
import os
import shutil
import tempfile
import zipfile

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, HarnessError, Sub, Violation, x64
from xtructure import FieldDescriptor, xtructure_dataclass
from xtructure.io import load, save

RULE = ("one saved file per case, damaged by truncation / byte flips / overwritten ranges / removed, renamed or duplicated members, or replaced by foreign "
        "data, or loaded through another class; non-trivial: the damage changed the file or the class differs")


def damage():
    frac = st.floats(0, 1, allow_nan=False, width=32)
    flips = st.lists(st.tuples(frac, st.integers(1, 255)).map(list), min_size=1, max_size=4)
    return st.one_of(
        st.tuples(st.just("trunc"), frac).map(list), st.tuples(st.just("trunc_end"), st.integers(1, 60)).map(list),
        st.tuples(st.just("flip"), flips).map(list), st.tuples(st.just("flip"), flips).map(list), st.tuples(st.just("flip"), flips).map(list),
        st.tuples(st.just("zero"), frac, st.integers(1, 64)).map(list),
        st.tuples(st.just("drop"), st.integers(0, 30)).map(list), st.tuples(st.just("rename"), st.integers(0, 30)).map(list),
        st.tuples(st.just("foreign"), st.sampled_from(["empty", "text", "npz", "npy", "meta-int", "meta-missing-module", "meta-missing-class", "meta-only", "meta-function", "pickle"])).map(list),
        st.just(["missing"]), st.just(["other"]))


def strategy(shard):
    spec = L.spec_strategy(bits=shard % 3 == 0, shapes=[[], [3], [2, 2]] if shard % 3 == 0 else L.SHAPES)
    return st.fixed_dictionaries({"spec": spec, "other": L.spec_strategy(depth=1, bits=False), "batch": st.sampled_from([[], [3], [2, 2]]),
                                  "salt": st.integers(0, 10 ** 6), "packed": st.booleans(), "damage": st.lists(damage(), min_size=1, max_size=12)})


def members(raw):
    z = zipfile.ZipFile(pyio.BytesIO(raw))
    return [(n, z.read(n)) for n in z.namelist()]


def rezip(items):
    b = pyio.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for n, d in items:
            z.writestr(n, d)
    return b.getvalue()


def foreign(kind, cls, x):
    b = pyio.BytesIO()
    meta = lambda m, c: {"__xtructure_class_module__": np.array(m), "__xtructure_class_name__": np.array(c)}
    if kind == "empty":
        return b""
    if kind == "text":
        return b"this is not an archive\n" * 4
    if kind == "npy":
        np.save(b, np.arange(3))
    elif kind == "npz":
        np.savez(b, alpha=np.zeros(3), b=np.ones(2))
    elif kind == "pickle":
        np.savez(b, **{"__xtructure_class_module__": np.array([cls.__module__], dtype=object), "__xtructure_class_name__": np.array([cls.__name__], dtype=object)})
    elif kind == "meta-int":
        np.savez(b, alpha=np.zeros(3), **meta("builtins", "int"))
    elif kind == "meta-function":
        np.savez(b, alpha=np.zeros(3), **meta("os.path", "join"))
    elif kind == "meta-missing-module":
        np.savez(b, alpha=np.zeros(3), **meta("no_such_module_at_all", "A"))
    elif kind == "meta-missing-class":
        np.savez(b, alpha=np.zeros(3), **meta(cls.__module__, "NoSuchClassAtAll"))
    elif kind == "meta-only":
        np.savez(b, **meta(cls.__module__, cls.__name__))
    return b.getvalue()


def run(case):
    spec = case["spec"]
    cls, other = L.build(spec), L.build(case["other"])
    d = tempfile.mkdtemp(prefix="pbt_p12_")
    labels, hit = set(), False
    try:
        p = os.path.join(d, "x.npz")
        x = L.from_np(spec, L.raw_arrays(spec, tuple(case["batch"]), case["salt"]))
        want = L.to_np(spec, x)
        save(p, x, packed=case["packed"])
        raw = open(p, "rb").read()
        q = os.path.join(d, "y.npz")
        for dm in case["damage"]:
            kind, data, must_fail = dm[0], raw, False
            if kind == "other":
                if other is cls:
                    continue
                try:
                    y = other.load(p)
                except Exception:
                    hit = True
                    labels.add("wrong class")
                    continue
                raise Violation(f"a file of {cls.__name__} loaded through {other.__name__} as {type(y).__name__}")
            if kind == "missing":
                for f in (load, cls.load):
                    try:
                        f(os.path.join(d, "nothing-here.npz"))
                    except FileNotFoundError:
                        labels.add("missing")
                        continue
                    raise Violation("loading a missing file did not raise FileNotFoundError")
                continue
            if kind == "trunc":
                data = raw[: int(dm[1] * (len(raw) - 1))]
            elif kind == "trunc_end":
                data = raw[: -dm[1]]
            elif kind == "flip":
                b = bytearray(raw)
                for f, v in dm[1]:
                    b[min(int(f * len(b)), len(b) - 1)] ^= v
                data = bytes(b)
            elif kind == "zero":
                b = bytearray(raw)
                s = int(dm[1] * (len(b) - 1))
                b[s:s + dm[2]] = bytes(len(b[s:s + dm[2]]))
                data = bytes(b)
            elif kind in ("drop", "rename"):
                items = members(raw)
                i = dm[1] % len(items)
                name = items[i][0]
                items[i:i + 1] = [] if kind == "drop" else [(name.replace(".npy", "_.npy"), items[i][1])]
                data = rezip(items)
                must_fail = ".dtype.npy" not in name or "bitpack" not in name  # the recorded dtype of a packed field is redundant
            elif kind == "foreign":
                data, must_fail = foreign(dm[1], cls, x), True
            hit = hit or data != raw
            with open(q, "wb") as f:
                f.write(data)
            try:
                y = load(q)
                ok = True
            except (Exception, MemoryError):
                ok = False
            check(open(q, "rb").read() == data, "a failed or successful load changed the file ({})", dm)
            if ok:
                check(not must_fail, "loading a file with {} succeeded", dm)
                check(type(y) is cls, "damage {} made load return a {}", dm, type(y).__name__)
                diff = L.same(want, L.to_np(spec, y))
                check(diff is None, "damage {} made load return different data: {}", dm, diff)
                labels.add(kind + ": harmless")
            else:
                labels.add(kind + ": refused")
            try:
                cls.load(q)
                check(ok, "method load accepted what the function refused ({})", dm)
            except Violation:
                raise
            except (Exception, MemoryError):
                check(not ok, "method load refused what the function accepted ({})", dm)
        y = load(p)
        diff = L.same(want, L.to_np(spec, y))
        check(diff is None, "the undamaged file no longer loads correctly: {}", diff)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return hit, sorted(labels)


# -- objects that are not dataclass instances
BAD = {"int": lambda: 3, "none": lambda: None, "array": lambda: jnp.zeros(3), "dict": lambda: {"a": 1}, "class": lambda: L.build(L.POOL[0]),
       "tuple": lambda: (L.instance(L.POOL[0], ()),), "str": lambda: "x", "object": object}


def bad_strategy(shard):
    return st.fixed_dictionaries({"what": st.sampled_from(sorted(BAD)), "name": st.sampled_from(["a.npz", "b"]), "existing": st.booleans()})


def run_bad(case):
    d = tempfile.mkdtemp(prefix="pbt_p12b_")
    try:
        p = os.path.join(d, case["name"])
        keep = None
        if case["existing"]:
            save(p, L.instance(L.POOL[1], (2,)))
            keep = {f: hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest() for f in os.listdir(d)}
        try:
            save(p, BAD[case["what"]]())
        except Exception:
            pass
        else:
            raise Violation(f"saving a {case['what']} was accepted")
        now = {f: hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest() for f in os.listdir(d)}
        check(now == (keep or {}), "a refused save changed the files: {} -> {}", keep, now)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return True, [case["what"]]


# -- equally named classes in different scopes
def name_strategy(shard):
    return st.fixed_dictionaries({"name": st.sampled_from(["StateA", "StateB", "StateC"]), "where": st.sampled_from(["module", "nested", "local", "nested2"]),
                                  "dt": st.sampled_from(["uint8", "int32", "float32"]), "shadow": st.booleans(), "salt": st.integers(0, 1000)})


def run_names(case):
    mod = L._mod
    touched = []

    def declare(qual, dt):
        body = {"__annotations__": {"v": FieldDescriptor.tensor(dtype=L.DT[dt], shape=(2,))}, "__module__": L._MODNAME, "__qualname__": qual}
        return xtructure_dataclass(type(case["name"], (), body))

    def put(obj, name, v):
        touched.append((obj, name))
        setattr(obj, name, v)

    d = tempfile.mkdtemp(prefix="pbt_p12c_")
    try:
        outer = type("Outer", (), {"__module__": L._MODNAME})
        inner = type("Inner", (), {"__module__": L._MODNAME})
        put(mod, "Outer", outer)
        outer.Inner = inner
        twin = None
        if case["shadow"] and case["where"] != "module":
            twin = declare(case["name"], case["dt"])
            put(mod, case["name"], twin)
        elif case["shadow"]:
            twin = outer.Twin = declare("Outer.Twin", case["dt"])
            twin.__name__ = case["name"]
        qual = {"module": "{}", "nested": "Outer.{}", "nested2": "Outer.Inner.{}", "local": "make.<locals>.{}"}[case["where"]].format(case["name"])
        cls = declare(qual, case["dt"])
        if case["where"] == "module":
            put(mod, case["name"], cls)
        elif case["where"] == "nested":
            setattr(outer, case["name"], cls)
        elif case["where"] == "nested2":
            setattr(inner, case["name"], cls)
        v = (np.arange(2) + case["salt"] % 100).astype(L.npdt(case["dt"]))
        x = cls(v=jnp.asarray(v))
        p = os.path.join(d, "x.npz")
        try:
            save(p, x)
            y = load(p)
        except Exception as e:
            check(case["where"] == "local", "a class declared as {} did not round-trip: {!r}", qual, e)
            return True, ["refused: " + case["where"]]
        check(type(y) is cls, "saved an instance of {}, load returned a {} (declared as {})", qual, type(y), type(y).__qualname__)
        check(np.array_equal(np.asarray(y.v), v), "content")
        check(type(cls.load(p)) is cls, "method load returned another class")
        if twin is not None:
            try:
                y = twin.load(p)
            except Exception:
                return True, ["refused by its namesake: " + case["where"]]
            raise Violation(f"a file of {cls.__qualname__} loaded through {twin.__qualname__} as a {type(y).__qualname__}")
        return True, ["loaded: " + case["where"]]
    finally:
        for obj, name in touched:
            if hasattr(obj, name):
                delattr(obj, name)
        shutil.rmtree(d, ignore_errors=True)


SUBS = [Sub("damage", strategy, run, quick=900, shards=7, rule=RULE),
        Sub("not-instances", bad_strategy, run_bad, quick=60, thorough=120, shards=1, rule="objects that are not instances, with and without an earlier file"),
        Sub("names", name_strategy, run_names, quick=60, thorough=400, shards=1, rule="classes of one name declared at module level, nested and locally")]
SUBS += x64(SUBS, damage=100)
