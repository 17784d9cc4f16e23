"""Model-based driver for BGPQ shared by P06, P07, P08, P27."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import HarnessError, check
from xtructure import BGPQ

# (layout index, total_size, batch_size, key dtype)
CONFIGS = [
    (0, 12, 4, "float16"), (1, 7, 1, "float32"), (2, 20, 3, "float32"), (3, 16, 2, "float32"), (4, 5, 8, "float32"),
    (6, 33, 4, "bfloat16"), (8, 64, 4, "float32"), (10, 10, 5, "float16"), (5, 40, 2, "float32"), (9, 48, 6, "float32"),
    (7, 31, 3, "float32"), (11, 90, 7, "float32"), (1, 4, 4, "float32"), (4, 2, 1, "float16"), (0, 26, 2, "bfloat16"), (3, 128, 16, "float32"),
]
if L.X64:
    CONFIGS = [(a, b, c, "float64" if d == "float32" and i % 3 else d) for i, (a, b, c, d) in enumerate(CONFIGS)]
NTAB = 1024


@functools.lru_cache(None)
def table(li):
    """NTAB pairwise different value rows of a layout: ({path: array}, {row bytes: tag})."""
    spec = L.POOL[li]
    big = L.arrays(spec, (NTAB * 8,), salt=3)
    idx, inv = [], {}
    for r in range(NTAB * 8):
        k = L.row_key(big, r)
        if k not in inv:
            inv[k] = len(idx)
            idx.append(r)
            if len(idx) == NTAB:
                break
    return {p: a[idx] for p, a in big.items()}, inv


EXTREME = {"float16": [65504.0, -65504.0, 6e-8], "bfloat16": [3.0e38, -3.0e38, 1e-38], "float32": [3.4028234e38, -3.4028234e38, 1.2e-38],
           "float64": [1.7e308, -1.7e308, 2.3e-308]}


def keyval(code, dt):
    """Key code -> exact finite key.  Small codes are multiples of 1/2; codes >= 1000 are extreme finite values."""
    if code >= 1000:
        return np.asarray(EXTREME[dt][code - 1000], dtype=L.npdt(dt))
    return np.asarray(code * 0.5, dtype=np.float32).astype(L.npdt(dt))


def keys_strategy(batch):
    one = st.one_of(st.integers(-6, 6), st.integers(-120, 120), st.sampled_from([1000, 1001, 1002]), st.integers(0, 2))
    return st.lists(one, min_size=0, max_size=batch)


def ops_strategy(batch, max_ops, dels=True):
    full = st.integers(-120, 120).flatmap(
        lambda b: st.lists(st.integers(-3, 3).map(lambda d: b + d), min_size=batch, max_size=batch))
    part = st.integers(0, batch).flatmap(lambda n: st.lists(st.integers(-60, 60), min_size=n, max_size=n))
    ins = st.one_of(keys_strategy(batch), part, part, st.lists(st.integers(-60, 60), min_size=batch, max_size=batch), full)
    how = st.sampled_from(["mb", "mbl", "mid"])
    op_ins = st.tuples(st.just("ins"), ins, how).map(list)
    choices = [op_ins, op_ins, op_ins, op_ins]
    if dels:
        choices += [st.just(["del"]), st.just(["del"]), st.tuples(st.just("dels"), st.integers(1, 4)).map(list), st.just(["snap"])]
    fill = st.tuples(st.just("insn"), st.integers(1, 6), st.integers(-100, 100), st.integers(0, 9)).map(list)
    choices += [fill]
    return st.integers(2, max_ops).flatmap(lambda n: st.lists(st.one_of(choices), min_size=n, max_size=n))


def case_strategy(shard, configs=None, max_ops=24):
    cfgs = configs or list(range(len(CONFIGS)))
    mine = [c for i, c in enumerate(cfgs) if i % 8 == shard % 8] or cfgs
    return st.sampled_from(mine).flatmap(
        lambda c: st.fixed_dictionaries({"cfg": st.just(c), "ops": ops_strategy(CONFIGS[c][2], max_ops)}))


def rows_instance(li, tags):
    arrs, _ = table(li)
    return L.from_np(L.POOL[li], {p: a[np.asarray(tags, dtype=np.int64)] for p, a in arrs.items()})


class Driver:
    """Applies operations to a real BGPQ and to a list model."""

    def __init__(self, cfg, over=False):
        self.li, total, self.batch, self.kdt = CONFIGS[cfg]
        self.spec = L.POOL[self.li]
        self.cls = L.build(self.spec)
        self.heap = BGPQ.build(total, self.batch, self.cls, L.DT[self.kdt])
        self.cap = -(-total // self.batch) * self.batch
        check(int(self.heap.max_size) == self.cap, "max_size {} for total {} batch {}, expected {}", self.heap.max_size, total, self.batch, self.cap)
        self.live = {}  # tag -> key (python float)
        self.next = 0
        self.over = over
        self.labels = set()
        self.default = L.to_np(self.spec, self.cls.default(()))
        self.check_size()

    def check_size(self):
        s = np.asarray(self.heap.size)
        check(int(s) == len(self.live), "size is {} but {} finite keys are stored", int(s), len(self.live))

    def block(self, codes, how):
        tags = list(range(self.next, self.next + len(codes)))
        self.next += len(codes)
        if self.next > NTAB:
            raise HarnessError("value table too small")
        ks = np.asarray([keyval(c, self.kdt) for c in codes], dtype=L.npdt(self.kdt))
        n = len(codes)
        if how == "mid":  # infinities anywhere in the block
            keys = np.full(self.batch, np.inf, dtype=L.npdt(self.kdt))
            pos = [(i * 7 + n) % self.batch for i in range(n)]
            pos = pos if len(set(pos)) == n else list(range(self.batch - n, self.batch))
            vt = np.zeros(self.batch, dtype=np.int64)
            for p, k, t in zip(pos, ks, tags):
                keys[p], vt[p] = k, t
            bk, bv = jnp.asarray(keys), rows_instance(self.li, vt)
        else:
            vals = rows_instance(self.li, tags)
            bk, bv = (BGPQ.make_batched(jnp.asarray(ks), vals, self.batch) if how == "mb"
                      else self.heap.make_batched_like(jnp.asarray(ks), vals))
            got = L.to_np(self.spec, bv)
            arrs, _ = table(self.li)
            k = np.asarray(bk)
            check(k.shape == (self.batch,) and k.dtype == L.npdt(self.kdt), "make_batched keys are {} {}", k.shape, k.dtype)
            check(k[:n].tobytes() == ks.tobytes() and bool(np.all(np.isposinf(k[n:].astype(np.float64)))), "make_batched keys {} from {}", k, ks)
            for p, a in got.items():
                exp = np.concatenate([arrs[p][tags], np.broadcast_to(self.default[p], (self.batch - n,) + self.default[p].shape)]).astype(a.dtype)
                check(a.shape == exp.shape and a.tobytes() == exp.tobytes(), "make_batched value field {} is {}, expected {}", p, a, exp)
        return bk, bv, dict(zip(tags, [float(k) for k in ks.astype(np.float64)]))

    def insert(self, codes, how):
        codes = codes[: self.batch]
        if not self.over:
            codes = codes[: max(0, self.cap - len(self.live))]
        bk, bv, new = self.block(codes, how)
        before = dict(self.live)
        self.heap = self.heap.insert(bk, bv)
        total = len(before) + len(new)
        if total <= self.cap:
            self.live = {**before, **new}
        else:
            self.overflow(before, new)
        self.check_size()
        if 0 < len(codes) < self.batch:
            self.labels.add("partial batch")
        if len(self.live) == self.cap:
            self.labels.add("exactly full")

    def overflow(self, before, new):
        """Predict the size, find out what was lost by draining a copy, check it is allowed to be lost."""
        self.labels.add("overflow")
        allp = {**before, **new}
        expect = len(allp) if len(allp) < self.cap + self.batch else len(allp) - self.batch
        left = self.drain_tags(self.heap, allp, expect)
        lost = {t: k for t, k in allp.items() if t not in left}
        check(len(lost) == len(allp) - expect, "overflow lost {} pairs, expected {}", len(lost), len(allp) - expect)
        if lost:
            self.labels.add("lost a batch")
            smallest = sorted(allp.values())[: self.batch]
            check(min(lost.values()) >= smallest[-1], "overflow lost key {} although the {} smallest are {}", min(lost.values()), self.batch, smallest)
            rest = sorted(k for t, k in allp.items() if t in left)
            bigger = sum(1 for k in rest if k > max(lost.values()))
            check(bigger < self.batch, "overflow lost at most key {} but kept {} larger keys", max(lost.values()), bigger)
        self.live = {t: k for t, k in allp.items() if t in left}

    def match(self, keys, vals, live, n_expected):
        """The finite prefix of one delete result against `live`; returns matched tags."""
        k = np.asarray(keys)
        check(k.shape == (self.batch,) and k.dtype == L.npdt(self.kdt), "delete_mins keys are {} {}", k.shape, k.dtype)
        kk = k.astype(np.float64)
        exp = sorted(live.values())[:n_expected]
        exp = exp + [np.inf] * (self.batch - len(exp))
        check(list(kk) == exp, "delete_mins returned keys {}, expected {}", kk.tolist(), exp)
        got = L.to_np(self.spec, vals)
        arrs, inv = table(self.li)
        out = []
        for p, a in got.items():
            check(a.shape == (self.batch,) + arrs[p].shape[1:] and a.dtype == arrs[p].dtype, "value field {} is {} {}", p, a.shape, a.dtype)
        for r in range(self.batch):
            if not np.isfinite(kk[r]):
                continue
            t = inv.get(L.row_key(got, r))
            check(t is not None, "value returned with key {} is no inserted value: {}", kk[r], {'.'.join(p): a[r].tolist() for p, a in got.items()})
            check(t in live, "value #{} returned with key {} but it is not (or no longer) stored", t, kk[r])
            check(live[t] == kk[r], "value #{} returned with key {} but it was inserted with {}", t, kk[r], live[t])
            check(t not in out, "value #{} returned twice", t)
            out.append(t)
        return out

    def delete(self):
        had = len(self.live)
        self.heap, keys, vals = self.heap.delete_mins()
        for t in self.match(keys, vals, self.live, self.batch):
            del self.live[t]
        self.check_size()
        if 0 < had < self.batch:
            self.labels.add("delete of a partial root")
        if had == 0:
            self.labels.add("delete from empty")

    def drain_tags(self, heap, live, expect):
        """All pairs still returned by a heap (batches must be ascending); it must hold exactly `expect` of `live`."""
        left, last, rem = [], -np.inf, dict(live)
        for _ in range(len(live) // self.batch + 3):
            heap, keys, vals = heap.delete_mins()
            kk = np.asarray(keys).astype(np.float64)
            fin = kk[np.isfinite(kk)]
            check(bool(np.all(np.diff(kk) >= 0) if np.all(np.isfinite(kk)) else np.all(np.diff(fin) >= 0)) and (len(fin) == 0 or fin[0] >= last),
                  "drained keys not ascending: {} after {}", kk.tolist(), last)
            check(not np.any(np.isnan(kk)) and bool(np.all(np.isposinf(kk[len(fin):]))), "padding of drained keys is {}", kk.tolist())
            if len(fin) == 0:
                break
            last = fin[-1]
            got = L.to_np(self.spec, vals)
            _, inv = table(self.li)
            for r in range(len(fin)):
                t = inv.get(L.row_key(got, r))
                check(t in rem, "drained pair (key {}, value {}) is not stored", fin[r], t)
                check(rem[t] == fin[r], "drained value #{} has key {}, inserted with {}", t, fin[r], rem[t])
                del rem[t]
                left.append(t)
        check(len(left) == expect, "queue gives back {} pairs, expected {}", len(left), expect)
        return set(left)

    def drain_exact(self, heap, live):
        self.drain_tags(heap, live, len(live))


def run_case(case, over=False):
    d = Driver(case["cfg"], over)
    snaps, ndel, nins = [], 0, 0
    for op in case["ops"]:
        if op[0] == "ins":
            d.insert(op[1], op[2])
            nins += len(op[1]) > 0
        elif op[0] == "insn":
            for j in range(op[1]):
                d.insert([op[2] + ((i * 5 + j * op[3]) % 11) - 5 * (j % 2) for i in range(d.batch)], "mb")
            nins += 1
        elif op[0] in ("del", "dels"):
            for _ in range(op[1] if op[0] == "dels" else 1):
                ndel += len(d.live) > 0
                d.delete()
        elif op[0] == "snap":
            snaps.append((d.heap, dict(d.live)))
        if d.next > NTAB - 400:
            break
    while d.live:
        d.delete()
    d.delete()
    for h, live in snaps[:2]:
        check(int(h.size) == len(live), "size of an older queue changed: {} (was {})", int(h.size), len(live))
        d.drain_exact(h, live)
        d.labels.add("older version drained")
    return (nins >= 2 and ndel >= 1) if not over else ("lost a batch" in d.labels), sorted(d.labels)
