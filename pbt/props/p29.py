"""P29: text renderings succeed, change nothing, and show exactly the selected elements."""
import re

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check, Sub, x64

ANSI = re.compile(r"\x1b\[[0-9;]*m")
NUM = re.compile(r"(?<![A-Za-z_])(True|False|[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf)|nan)(?![A-Za-z_])")
NAMES = ["alpha", "b", "count", "delta_x", "_eps", "g"]  # no digits
BATCHES = [[], [], [1], [2], [4], [5], [9], [40], [0], [1, 1], [2, 3], [4, 4], [5, 2], [2, 7], [6, 6], [0, 3], [3, 0], [2, 1, 2], [2, 2, 2], [1, 1, 1], [3, 2, 4], [2, 0, 2]]
ENV = {"TERM": "xterm", "COLUMNS": "2000"}


def renamed(spec, name="Sample", depth=0):
    return {"fields": [[NAMES[i], {**f, "nest": renamed(f["nest"], name + "Part", depth + 1)} if "nest" in f else f] for i, (_, f) in enumerate(spec["fields"])]}


def build(spec, name="Sample", fmt=None):
    """Classes with digit-free names (the names inside L.build contain digits)."""
    key = f"plain{name}{spec}{fmt}"
    if key not in L._cache:
        from xtructure import FieldDescriptor, xtructure_dataclass
        ann = {}
        for i, (n, f) in enumerate(spec["fields"]):
            if "nest" in f:
                ann[n] = FieldDescriptor.tensor(build(f["nest"], name + "Part"), tuple(f["sh"])) if f["sh"] else FieldDescriptor.scalar(build(f["nest"], name + "Part"))
            else:
                ann[n] = L.descriptor(f)
        body = {"__annotations__": ann, "__module__": L._MODNAME, "__qualname__": name}
        if fmt:
            body["__str__"] = fmt
        L._cache[key] = xtructure_dataclass(type(name, (), body))
    return L._cache[key]


def make(spec, arrays, cls, prefix=()):
    kw = {}
    for n, f in spec["fields"]:
        if "nest" in f:
            kw[n] = make(f["nest"], arrays, cls.__annotations__[n].dtype, prefix + (n,))
        else:
            kw[n] = jnp.asarray(arrays[prefix + (n,)])
    return cls(**kw)


def tokens(text):
    text = ANSI.sub("", text)
    text = re.sub(r"shape: \([\d, ]*\)", "", text)
    return sorted(float(t) if t not in ("True", "False") else 7e30 + (t == "True") * 1e30 for t in NUM.findall(text))


def expected_tokens(arrs, sel):
    out = []
    for a in arrs:
        for v in np.asarray(a)[sel].reshape(-1):
            out.append((8e30 if v else 7e30) if np.asarray(a).dtype == bool else float(v))
    return sorted(out)


def close(a, b):
    return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-6 * max(abs(x), abs(y)) for x, y in zip(a, b))


def runs(n, shown, what):
    """`shown` (positions in order) must be a leading and a trailing part of range(n)."""
    k = 0
    while k < len(shown) and shown[k] == k:
        k += 1
    tail = shown[k:]
    check(n == 0 or k >= 1, "{}: the leading element is not shown first: {}", what, shown)
    check(tail == list(range(n - len(tail), n)), "{}: shows {}, not a leading and a trailing part of {}", what, shown, n)
    check(k == n or len(tail) >= 1, "{}: the trailing element is not shown: {}", what, shown)
    return k


# ---------------------------------------------------------------- default formatting
DEFAULT_RULE = ("random layouts (nested, nested arrays, packed) x 22 batch shapes of rank 0-3 (empty, short, long), contents with identifiable numbers; "
                "the numbers in the text must be exactly those of the elements whose ids are shown; non-trivial: two leaves, or more elements than shown")


def default_strategy(shard):
    return st.fixed_dictionaries({"spec": L.spec_strategy(max_fields=3, depth=2, shapes=[[], [], [1], [2], [3], [2, 2], [13], [30], [6, 5]], nest_shapes=([], [], [2]), bits=False),
                                  "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 1000)})


def run_default(case):
    inner = renamed(case["spec"])
    spec = {"fields": [["ident", L.P("uint32")]] + inner["fields"]}
    batch = tuple(case["batch"])
    cls = build(spec)
    arrs = {k: v for k, v in L.arrays(spec, batch, case["salt"]).items()}
    for k, v in arrs.items():  # keep numbers short, so that printing them loses nothing
        if v.dtype.kind in "ui" and v.dtype.itemsize > 2:
            arrs[k] = (v.astype(np.int64) % 30000).astype(v.dtype)
        elif v.dtype.kind not in "uib":
            arrs[k] = (np.round(v.astype(np.float64)) % 64).astype(v.dtype) + 0
            arrs[k] = arrs[k].astype(v.dtype)
    n = int(np.prod(batch)) if batch else 1
    ids = 5000000 + np.arange(n, dtype=np.uint32).reshape(batch)
    arrs[("ident",)] = ids
    x = make(spec, arrs, cls)
    before = L.to_np(spec, x)
    text = str(x)
    check(type(text) is str and text == str(x) and text == f"{x}" and text == x.str(), "str() is not a repeatable text")
    check(isinstance(repr(x), str) and "Sample" in repr(x), "repr() fails")
    d = L.same(before, L.to_np(spec, x))
    check(d is None, "printing changed the instance: {}", d)
    plain = ANSI.sub("", text)
    shown = [int(t) - 5000000 for t in re.findall(r"ident: (\d+)", plain)]
    if not batch:
        check("Sample" in plain and "Batched Sample\x20" not in plain.split("(")[0], "a single instance prints as {}", plain[:100])
        for path, _, _ in L.leaves(spec):
            for part in path:
                check(part in plain, "field {} is missing in\n{}", part, plain)
        want, sel = [0], ()
        check(shown == [0], "ids shown: {}", shown)
        exp = expected_tokens(arrs.values(), ())
    else:
        check("Batched Sample " in plain, "no class name in\n{}", plain[:300])
        check(f"shape: {batch} " in plain, "no batch shape {} in\n{}", batch, plain[-300:])
        if len(batch) == 2 and n:
            r, c = batch
            rows = []
            for i in shown:
                if i // c not in rows:
                    rows.append(i // c)
            cols = [i % c for i in shown if i // c == rows[0]] if rows else []
            check(shown == [i * c + j for i in rows for j in cols], "shown elements {} do not form a grid", shown)
            runs(r, rows, "rows")
            runs(c, cols, "columns")
            check(("..." in plain) == (len(rows) < r or len(cols) < c), "abbreviation marks do not match what is left out")
        else:
            k = runs(n, shown, "elements")
            check(("..." in plain) == (len(shown) < n), "abbreviation marks do not match what is left out")
        flat = [np.asarray(a).reshape((n,) + np.asarray(a).shape[len(batch):]) for a in arrs.values()]
        exp = sorted(sum([expected_tokens(flat, i) for i in shown], []))
    got = tokens(text)
    check(close(got, exp), "the text shows the numbers {} instead of {}\n{}", got[:60], exp[:60], plain[:1500])
    return len(L.leaves(spec)) > 2 or len(shown) < n, [f"rank {len(batch)}", "abbreviated" if len(shown) < n else "full"]


# ---------------------------------------------------------------- any contents: succeeds and changes nothing
ANY_RULE = ("random layouts with arbitrary bit patterns (NaN, infinities, extremes), batch shapes, also inconsistent (unstructured) leaves, under jit, "
            "and with narrow terminals; non-trivial: two leaves")


def any_strategy(shard):
    return st.fixed_dictionaries({"spec": L.spec_strategy(max_fields=3), "batch": st.sampled_from(BATCHES), "salt": st.integers(0, 1000),
                                  "wrong": st.sampled_from([None, None, None, [2], [3, 2]]), "jit": st.booleans()})


def run_any(case):
    spec, batch = case["spec"], tuple(case["batch"])
    arrs = L.raw_arrays(spec, batch, case["salt"])
    if case["wrong"] is not None:
        k = sorted(arrs)[case["salt"] % len(arrs)]
        arrs[k] = np.zeros(tuple(case["wrong"]) + arrs[k].shape + (7,), arrs[k].dtype)
    x = L.from_np(spec, arrs)
    before = L.to_np(spec, x)
    name = type(x).__name__
    if case["jit"]:
        seen = []

        @jax.jit
        def f(y):
            seen.append(str(y))
            return y
        x2 = f(x)
        check(len(seen) >= 1 and name in seen[0], "no class name in the text of a traced instance")
        d = L.same(before, L.to_np(spec, x2))
        check(d is None, "printing changed the traced instance: {}", d)
    text = ANSI.sub("", str(x))
    check(name in text and name in repr(x), "no class name in {}", text[:200])
    kind = x.structured_type.name
    if kind == "UNSTRUCTURED":
        check("Unstructured" in text, "an unstructured instance prints as {}", text[:200])
    elif kind == "BATCHED":
        batch = tuple(x.shape.batch)  # replacing the only leaf may still be consistent
        check(f"Batched {name}" in text and f"shape: {batch} " in text, "class or batch shape {} missing in\n{}", batch, text[:1500])
    d = L.same(before, L.to_np(spec, x))
    check(d is None, "printing changed the instance: {}", d)
    return len(arrs) > 1, [kind]


# ---------------------------------------------------------------- custom single-item formatters
CUSTOM_RULE = ("custom formatters (with and without keyword arguments, several lines, markup-like and styled text) x 22 batch shapes; every call is recorded; "
               "non-trivial: more elements than shown, or keyword arguments")
CALLS = []


def fmt_plain(self, mark="", **kw):
    CALLS.append((int(self.ident), mark, kw, tuple(self.shape.batch)))
    return f"<{int(self.ident)}{mark}>"


def fmt_lines(self, mark="", **kw):
    CALLS.append((int(self.ident), mark, kw, tuple(self.shape.batch)))
    return f"<{int(self.ident)}{mark}>\n[bold]x[/bold]\n\n end"


def fmt_ansi(self, mark="", **kw):
    CALLS.append((int(self.ident), mark, kw, tuple(self.shape.batch)))
    return f"\x1b[31m<{int(self.ident)}{mark}>\x1b[0m"


FMTS = [fmt_plain, fmt_lines, fmt_ansi]


def custom_strategy(shard):
    return st.fixed_dictionaries({"fmt": st.integers(0, 2), "batch": st.sampled_from(BATCHES), "mark": st.sampled_from(["", "", "!", "[/red]", "é", "a b"]),
                                  "more": st.booleans(), "base": st.integers(0, 10 ** 6), "kwargs": st.booleans()})


def run_custom(case):
    spec = {"fields": [["ident", L.P("uint32")], ["w", L.P("uint8", 2)]]}
    fmt = FMTS[case["fmt"]]
    cls = build(spec, "Labelled", fmt)
    batch = tuple(case["batch"])
    n = int(np.prod(batch)) if batch else 1
    x = cls(ident=jnp.asarray(case["base"] + np.arange(n, dtype=np.uint32).reshape(batch)), w=jnp.zeros(batch + (2,), jnp.uint8))
    CALLS.clear()
    mark = case["mark"] if case["kwargs"] else ""
    kw = {"mark": mark} if case["kwargs"] else {}
    if case["kwargs"] and case["more"]:
        kw["extra"] = 5
    text = x.str(**kw) if case["kwargs"] else str(x)
    calls = [(i - case["base"], m, k, b) for i, m, k, b in CALLS]
    plain = ANSI.sub("", text)
    for i, m, k, b in calls:
        check(m == mark and k == {a: v for a, v in kw.items() if a != "mark"}, "the formatter received {} {}", m, k)
        check(b == (), "the formatter received a batch of shape {}", b)
    shown = [i for i, *_ in calls]
    pat = r"<(\d+)" + re.escape(mark) + r">"
    rows = [[("dots" if t.strip() == "..." else int(re.match(pat, t).group(1)) - case["base"]) for t in re.findall(pat.replace("(", "(?:") + r"|\.\.\.", line)]
            for line in plain.split("\n")]
    rows = [r for r in rows if r]
    seen = [i for r in rows for i in r if i != "dots"]
    check(sorted(seen) == sorted(shown), "formatted elements {} but the text shows {}", shown, seen)
    if not batch:
        check(plain == ANSI.sub("", FMTS_plain(case["fmt"], case["base"], mark)), "a single instance prints as {!r}", plain)
        return bool(kw), ["single"]
    check("Batched Labelled " in plain and f"shape: {batch} " in plain, "class or batch shape missing in\n{}", plain)
    if len(batch) == 2 and n:
        r, c = batch
        ids = [row for row in rows if any(i != "dots" for i in row)]
        row_ids = [[i for i in row if i != "dots"] for row in ids]
        rr = [row[0] // c for row in row_ids]
        cc = [i % c for i in row_ids[0]]
        check(row_ids == [[i * c + j for j in cc] for i in rr], "shown elements {} do not form a grid", row_ids)
        kr, kc = runs(r, rr, "rows"), runs(c, cc, "columns")
        if case["fmt"] != 1:  # one-line items: the marks stand between the leading and the trailing part
            for row in ids:
                check([j for j, i in enumerate(row) if i == "dots"] == ([kc] if len(cc) < c else []), "abbreviation mark misplaced in {}", row)
            check([j for j, row in enumerate(rows) if all(i == "dots" for i in row)] == ([kr] if len(rr) < r else []), "row abbreviation misplaced: {}", rows)
        return len(seen) < n or bool(kw), ["grid"]
    k = runs(n, seen, "elements")
    if case["fmt"] != 1 and n:
        check(len(rows) == 1 and [j for j, i in enumerate(rows[0]) if i == "dots"] == ([k] if len(seen) < n else []), "abbreviation mark misplaced: {}", rows)
    return len(seen) < n or bool(kw), ["line"]


def FMTS_plain(i, ident, mark):
    class Fake:
        class shape:
            batch = ()
    f = Fake()
    f.ident = ident
    r = FMTS[i](f, mark)
    CALLS.pop()
    return r


SUBS = [
    Sub("default", default_strategy, run_default, quick=600, shards=5, env=ENV, rule=DEFAULT_RULE),
    Sub("any", any_strategy, run_any, quick=240, shards=2, env=ENV, rule=ANY_RULE),
    Sub("narrow", any_strategy, run_any, quick=80, shards=1, env={"TERM": "dumb", "COLUMNS": "80"}, rule="as any, on an 80-column terminal"),
    Sub("custom", custom_strategy, run_custom, quick=400, shards=2, env=ENV, rule=CUSTOM_RULE),
]
SUBS += x64(SUBS, default=100, any=60)
