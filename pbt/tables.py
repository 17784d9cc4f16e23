"""Model-based driver for HashTable shared by P01-P04 and P27."""
import functools
import json

from pbt import interp  # noqa: F401  (before xtructure; matters only in the PBT_PLATFORM subs)
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check
from xtructure import HashIdx, HashTable

# (layout, capacity, bucket_size, seed, batch length, hash mode)
CONFIGS = [
    (0, 64, 8, 1, 6, "std"), (1, 30, 2, 7, 5, "const"), (2, 40, 4, 123, 7, "low2"), (3, 24, 1, 5, 4, "std"),
    (4, 50, 3, 42, 9, "prim"), (5, 100, 8, 0, 12, "step"), (6, 32, 4, 9, 8, "fp4"), (7, 20, 5, 31337, 6, "const"),
    (8, 60, 16, 2, 10, "low2"), (9, 33, 2, 77, 5, "std"), (10, 48, 4, 3, 16, "fp4"), (11, 64, 32, 11, 24, "const"),
    (1, 16, 8, 4, 3, "prim"), (0, 40, 256, 99, 8, "step"), (12, 36, 7, 6, 6, "low2"), (2, 128, 4, 2 ** 31 - 1, 20, "std"),
]
NCODES = 40
MODES = ["std", "const", "low2", "prim", "step", "fp4"]


@functools.lru_cache(None)
def hashed_class(li, mode):
    """The layout's class; for the weak modes a twin class whose hash functions are replaced by colliding ones."""
    spec = L.POOL[li]
    if mode == "std":
        return L.build(spec)
    base = L.build(spec)
    spec2 = dict(spec, name=L.class_name(spec) + "_" + mode)
    cls = L.build(spec2)
    std_pair = cls.hash_pair_with_uint32ed

    def pair(x, seed=0):
        (p, s), w = std_pair(x, seed)
        p, s = jnp.asarray(p, jnp.uint32), jnp.asarray(s, jnp.uint32)
        if mode == "const":
            p, s = p * 0 + jnp.uint32(5), s * 0 + jnp.uint32(9)
        elif mode == "low2":
            p, s = p & jnp.uint32(3), (s & jnp.uint32(2)) | jnp.uint32(1)
        elif mode == "prim":
            p, s = p & jnp.uint32(15), s * 0 + jnp.uint32(1)
        elif mode == "step":
            p, s = p * 0 + jnp.uint32(3), (s & jnp.uint32(30)) | jnp.uint32(1)
        elif mode == "fp4":
            k = p & jnp.uint32(7)
            p, s = k * jnp.uint32(0x01000193), (k * jnp.uint32(6)) | jnp.uint32(1)
        return (p, s), w

    cls.hash_pair_with_uint32ed = pair
    cls.hash_pair = lambda x, seed=0: pair(x, seed)[0]
    cls.hash = lambda x, seed=0: pair(x, seed)[0][0]
    cls.hash_with_uint32ed = lambda x, seed=0: (pair(x, seed)[0][0], pair(x, seed)[1])
    assert base is not cls
    return cls


def spec_of(li):
    return L.POOL[li]


@functools.lru_cache(None)
def pool_rows(li):
    spec = L.POOL[li]
    codes = L.distinct_codes(spec, NCODES)
    arrs = L.rows_arrays(spec, np.asarray(codes))
    # two special rows: the class default (what unoccupied slots hold) and all-zero content
    d = L.to_np(spec, L.build(spec).default(()))
    keys = [L.row_key(arrs, i) for i in range(NCODES)]
    if L.row_key({p: a[None] for p, a in d.items()}, 0) not in keys:
        for p in arrs:
            arrs[p][3] = d[p]
    keys = [L.row_key(arrs, i) for i in range(NCODES)]
    if li == 12:  # states that differ in the top bits of two words only (polynomial row signatures cancel those)
        w, f = arrs[("wide",)], arrs[("fl",)]
        for k in range(8, NCODES, 8):
            for j, (x, y) in enumerate([(0, 1), (3, 7), (2, 6)]):
                w[k + j + 1], f[k + j + 1] = w[k], f[k]
                w[k + j + 1, [x, y]] ^= np.uint32(1 << 31)
            f[k + 4], w[k + 4] = np.where(f[k] == 0, np.float32(1), -f[k]), w[k]
        keys = [L.row_key(arrs, i) for i in range(NCODES)]
        assert len(set(keys)) == NCODES
    z = {p: np.zeros_like(a[:1]) for p, a in arrs.items()}
    if L.row_key(z, 0) not in keys:
        for p in arrs:
            arrs[p][5] = z[p][0]
    return arrs


class Driver:
    def __init__(self, li, cap, bucket, seed, blen, mode, mult=None, max_probes=None):
        self.li, self.cap, self.bucket, self.blen, self.mode = li, cap, bucket, blen, mode
        self.spec, self.cls, self.rows = L.POOL[li], hashed_class(li, mode), pool_rows(li)
        kw = {}
        if mult is not None:
            kw["hash_size_multiplier"] = mult
        if max_probes is not None:
            kw["max_probes"] = max_probes
        self.table = HashTable.build(self.cls, seed, cap, bucket_size=bucket, **kw)
        self.model = {}  # code -> handle
        self.labels = set()
        self.max_probes = max_probes

    def inst(self, codes):
        codes = np.asarray(codes, dtype=np.int64) % NCODES
        return L.from_np(self.spec, {p: a[codes] for p, a in self.rows.items()}, cls=self.cls)

    def check_size(self):
        s = int(self.table.size)
        check(s == len(self.model), "size is {} but {} distinct states are stored", s, len(self.model))

    # -- single operations
    def insert(self, code, must=True):
        code %= NCODES
        x = self.inst([code])[0]
        self.table, inserted, idx = self.table.insert(x)
        inserted = bool(inserted)
        if code in self.model:
            check(not inserted, "insert reported 'inserted' for a state already present (code {})", code)
            check(int(idx.index) == self.model[code], "insert of a present state returned handle {}, it is at {}", int(idx.index), self.model[code])
        elif inserted:
            self.new_handle(code, int(idx.index))
        else:
            self.labels.add("single rejected")
            check(not must, "insert reported 'not inserted' for a new state although there is room (code {}, {} stored)", code, len(self.model))
        self.check_size()
        return inserted

    def new_handle(self, code, h):
        other = [c for c, g in self.model.items() if g == h]
        check(not other, "new state {} got handle {} which belongs to state {}", code, h, other)
        self.model[code] = h

    def lookup(self, code):
        code %= NCODES
        idx, found = self.table.lookup(self.inst([code])[0])
        check(bool(found) == (code in self.model), "lookup of state {} says found={}, expected {}", code, bool(found), code in self.model)
        if code in self.model:
            check(int(idx.index) == self.model[code], "lookup of state {} returned handle {}, expected {}", code, int(idx.index), self.model[code])

    def lookup_parallel(self, codes, filled=None):
        codes = [c % NCODES for c in codes]
        x = self.inst(codes)
        if filled is None:
            idx, found = self.table.lookup_parallel(x)
            filled = [True] * len(codes)
        else:
            if filled is True or filled is False:
                idx, found = self.table.lookup_parallel(x, filled)
                filled = [filled] * len(codes)
            else:
                idx, found = self.table.lookup_parallel(x, jnp.asarray(filled))
        found, idx = np.asarray(found), np.asarray(idx.index)
        check(found.shape == (len(codes),) and idx.shape == (len(codes),), "lookup_parallel result shapes {} {}", found.shape, idx.shape)
        for i, c in enumerate(codes):
            if not filled[i]:
                check(not bool(found[i]), "lookup_parallel found an unfilled row ({})", i)
                continue
            check(bool(found[i]) == (c in self.model), "lookup_parallel row {} (state {}) says found={}, expected {}", i, c, bool(found[i]), c in self.model)
            if c in self.model:
                check(int(idx[i]) == self.model[c], "lookup_parallel row {} (state {}) returned handle {}, expected {}", i, c, int(idx[i]), self.model[c])

    # -- batched insertion
    def parallel_insert(self, codes, filled=None, ukey=None, must=True, keydt=np.float32):
        codes = [c % NCODES for c in codes]
        n = len(codes)
        x = self.inst(codes)
        kw = {}
        if filled is not None:
            kw["filled"] = filled if isinstance(filled, bool) else jnp.asarray(filled)
        if ukey is not None:
            kw["unique_key"] = jnp.asarray(np.asarray(ukey, dtype=keydt))
        self.table, inserted, unique, idx = self.table.parallel_insert(x, **kw)
        inserted, unique, idx = np.asarray(inserted), np.asarray(unique), np.asarray(idx.index)
        check(inserted.shape == (n,) and unique.shape == (n,) and idx.shape == (n,), "parallel_insert result shapes {} {} {}", inserted.shape, unique.shape, idx.shape)
        check(inserted.dtype == bool and unique.dtype == bool, "parallel_insert masks are {} {}", inserted.dtype, unique.dtype)
        fl = [True] * n if filled is None else [filled] * n if isinstance(filled, bool) else list(filled)
        groups = {}
        for i, c in enumerate(codes):
            if fl[i]:
                groups.setdefault(c, []).append(i)
        for i in range(n):
            if not fl[i]:
                check(not unique[i] and not inserted[i], "unfilled row {} reported unique={} inserted={}", i, unique[i], inserted[i])
        before = dict(self.model)
        rejected = 0
        for c, rows in groups.items():
            rep = rows[0] if ukey is None else min(rows, key=lambda i: (np.asarray(ukey[i], dtype=keydt).item(), i))
            for i in rows:
                check(bool(unique[i]) == (i == rep), "row {} (state {}, equal rows {}) unique={}, representative should be row {}", i, c, rows, bool(unique[i]), rep)
                check(i == rep or not inserted[i], "row {} (state {}) inserted although row {} is the representative", i, c, rep)
            if c in before:
                check(not inserted[rep], "state {} reported inserted although already present", c)
            elif inserted[rep]:
                self.new_handle(c, int(idx[rep]))
            else:
                rejected += 1
                check(not must, "new state {} (row {}) reported not inserted although there is room ({} stored)", c, rep, len(self.model))
            if c in self.model:
                for i in rows:
                    check(int(idx[i]) == self.model[c], "row {} (state {}) got handle {}, the state is at {}", i, c, int(idx[i]), self.model[c])
            if len(rows) > 1:
                self.labels.add("batch duplicates")
            if c in before:
                self.labels.add("already present")
        if rejected:
            self.labels.add("batch rejected")
        if not all(fl):
            self.labels.add("unfilled rows")
        self.check_size()
        return rejected

    # -- whole-state checks
    def check_handles(self, table=None, model=None):
        table, model = table or self.table, self.model if model is None else model
        if not model:
            return
        codes = sorted(model)
        pad = codes + [codes[0]] * (NCODES - len(codes))
        h = np.asarray([model[c] for c in pad], dtype=np.uint32)
        got = L.to_np(self.spec, table[HashIdx(index=jnp.asarray(h))])
        exp = {p: a[np.asarray(pad)] for p, a in self.rows.items()}
        d = L.same(exp, got)
        check(d is None, "states read back through their handles differ: {} (codes {})", d, codes)
        one = table[HashIdx(index=jnp.asarray(h[0]))]
        d = L.same({p: a[pad[0]] for p, a in self.rows.items()}, L.to_np(self.spec, one))
        check(d is None, "state read back through a single handle differs: {}", d)
        check(len(set(h[: len(codes)].tolist())) == len(codes), "two states share a handle: {}", model)
        per = {}
        for c in codes:
            per.setdefault(model[c] // self.bucket, set()).add(model[c] % self.bucket)
        for b, slots in per.items():
            check(slots == set(range(len(slots))), "bucket {} is occupied at slots {} (gap)", b, sorted(slots))
            if len(slots) == self.bucket:
                self.labels.add("full bucket")

    def check_all(self, table=None, model=None):
        saved = self.table, self.model
        if table is not None:
            self.table, self.model = table, model
        try:
            self.check_size()
            for s in range(0, NCODES, self.blen):
                self.lookup_parallel([c % NCODES for c in range(s, s + self.blen)])
        finally:
            self.table, self.model = saved


def mask_strategy(n):
    return st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n), st.booleans(),
                     st.lists(st.sampled_from([True, True, True, False]), min_size=n, max_size=n))


def key_strategy(n):
    v = st.one_of(st.integers(0, 3), st.integers(-3, 3).map(lambda k: k / 2), st.just("inf"), st.just("-inf"))
    return st.one_of(st.none(), st.lists(v, min_size=n, max_size=n))


def ukey_val(k):
    return None if k is None else [v if isinstance(v, int) else float(v) for v in k]


def codes_strategy(n, hi=NCODES - 1):
    return st.one_of(st.lists(st.integers(0, hi), min_size=n, max_size=n), st.lists(st.integers(0, 5), min_size=n, max_size=n),
                     st.integers(0, hi).flatmap(lambda b: st.lists(st.integers(b, b + 9), min_size=n, max_size=n)))


def ops_strategy(blen, lo=2, hi=16):
    code = st.integers(0, NCODES - 1)
    pins = st.tuples(st.just("pins"), codes_strategy(blen), mask_strategy(blen), st.one_of(st.none(), key_strategy(blen))).map(list)
    op = st.one_of(
        st.tuples(st.just("ins"), code).map(list), st.tuples(st.just("ins"), code).map(list),
        pins, pins, pins,
        st.tuples(st.just("look"), code).map(list),
        st.tuples(st.just("lookp"), codes_strategy(blen), mask_strategy(blen)).map(list),
        st.just(["snap"]))
    return st.integers(lo, hi).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))


def case_strategy(shard, lo=2, hi=16):
    mine = [i for i in range(len(CONFIGS)) if i % 8 == shard % 8]
    return st.sampled_from(mine).flatmap(
        lambda c: st.fixed_dictionaries({"cfg": st.just(c), "ops": ops_strategy(CONFIGS[c][4], lo, hi)}))


def apply(d, op, must=True):
    if op[0] == "ins":
        d.insert(op[1], must)
    elif op[0] == "pins":
        d.parallel_insert(op[1], op[2], ukey_val(op[3]), must)
    elif op[0] == "look":
        d.lookup(op[1])
    elif op[0] == "lookp":
        d.lookup_parallel(op[1], op[2])


def run_case(case, handles=False):
    li, cap, bucket, seed, blen, mode = CONFIGS[case["cfg"]]
    d = Driver(li, cap, bucket, seed, blen, mode)
    snaps, grew_from_nonempty, rehit = [], 0, 0
    for op in case["ops"]:
        before = len(d.model)
        if op[0] in ("ins", "pins") and before + (len(op[1]) if op[0] == "pins" else 1) > cap:
            continue
        if op[0] == "snap":
            snaps.append((d.table, dict(d.model)))
            continue
        apply(d, op)
        grew_from_nonempty += before > 0 and len(d.model) > before
        if handles:
            d.check_handles()
    d.check_all()
    d.check_handles()
    for t, m in snaps[:3]:
        d.check_all(t, m)
        d.check_handles(t, m)
        d.labels.add("older version re-read")
    d.labels.add("hash:" + mode)
    return grew_from_nonempty >= 1 and len(d.model) >= 3, sorted(d.labels)
