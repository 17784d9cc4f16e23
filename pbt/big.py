"""Large instances: the same oracles as the small drivers, vectorised, so that index arithmetic is exercised past 8 and 16 bits.

Cases hold seeds and small parameters; contents come from a RandomState.  Items are rows of a per-layout table of pairwise
different rows, identified by their bytes.
"""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt import tables as T
from pbt.common import check
from xtructure import BGPQ, HashIdx, HashTable, Queue, Stack


def row_bytes(arrs):
    """(n,) void array: the bytes of each row."""
    n = len(next(iter(arrs.values())))
    cols = [np.ascontiguousarray(a).reshape(n, -1).view(np.uint8) for a in arrs.values()]
    m = np.ascontiguousarray(np.concatenate(cols, axis=1))
    return m.view(np.dtype((np.void, m.shape[1]))).reshape(-1)


@functools.lru_cache(None)
def table(li, n):
    """n pairwise different rows of a pool layout: ({path: array}, sorted bytes, tag of each sorted entry)."""
    spec = L.POOL[li]
    big = L.arrays(spec, (n + n // 2 + 64,), salt=41)
    b = row_bytes(big)
    _, first = np.unique(b, return_index=True)
    first = np.sort(first)[:n]
    assert len(first) == n, (li, len(first))
    arrs = {p: a[first] for p, a in big.items()}
    b = b[first]
    order = np.argsort(b)
    return arrs, b[order], order


def tags_of(li, n, got):
    """Tag of every row of {path: array}, -1 where the row is not in the table."""
    _, keys, order = table(li, n)
    b = row_bytes(got)
    pos = np.minimum(np.searchsorted(keys, b), len(keys) - 1)
    return np.where(keys[pos] == b, order[pos], -1)


def rows(li, n, tags, cls=None):
    arrs, _, _ = table(li, n)
    return L.from_np(L.POOL[li], {p: a[np.asarray(tags)] for p, a in arrs.items()}, cls=cls)


def first_bad(mask):
    return int(np.flatnonzero(~np.asarray(mask))[0])


def allof(mask, msg, *per_row):
    """Every entry of mask holds; otherwise report the first row that fails with its details."""
    mask = np.asarray(mask)
    if not mask.all():
        r = first_bad(mask)
        check(False, msg.format(*[np.asarray(p)[r] for p in per_row]) + f" (row {r}, {int((~mask).sum())} rows in total)")


# ---------------------------------------------------------------- hash tables
# (layout, distinct states, capacity, bucket size, batch length, hash mode)
TABLES = [(1, 900, 1200, 8, 300, "std"), (12, 3000, 4000, 16, 1000, "prim"), (3, 6000, 9000, 4, 1500, "std"), (6, 1500, 2000, 300, 500, "low2"), (9, 2000, 2500, 32, 260, "std"),
          (1, 1000, 1024, 2, 250, "std", 1), (2, 900, 150000, 8, 300, "std"), (12, 600, 600, 1, 100, "std", 1), (3, 500, 90000, 1, 250, "prim")]
# tables for more states than they can hold, or with a probe limit: (..., hash_size_multiplier, max_probes)
OVERFULL = [(1, 1500, 1000, 2, 300, "std", 1, None), (9, 1200, 700, 300, 260, "low2", 1, None), (3, 900, 1200, 4, 300, "std", 2, 300), (12, 1300, 500, 1, 100, "std", 2, None),
            (2, 1400, 1024, 16, 500, "prim", 1, 40)]
HUGE = [(1, 100000, 140000, 8, 70000, "std"), (11, 60000, 80000, 4, 33000, "std")]


def table_strategy(configs, lo=2, hi=5):
    def make(shard):
        mine = [c for i, c in enumerate(configs) if i % 4 == shard % 4] or configs
        pins = st.fixed_dictionaries({"op": st.just("pins"), "seed": st.integers(0, 10 ** 6), "spread": st.sampled_from([5, 30, 100, 100]), "fill": st.sampled_from([100, 100, 90, 40, 5]),
                                      "levels": st.sampled_from([0, 0, 1, 3, 100]), "kdt": st.sampled_from(["float32", "int32"])})
        other = st.fixed_dictionaries({"op": st.sampled_from(["one", "seq", "seq", "lookp", "snap"]), "seed": st.integers(0, 10 ** 6)})
        return st.fixed_dictionaries({"cfg": st.sampled_from(mine).map(list), "hseed": st.sampled_from([7, 0, 12345, 2 ** 31 - 1]), "pre": st.sampled_from([0, 40, 75, 100]), "ops": st.lists(st.one_of(pins, pins, pins, other), min_size=lo, max_size=hi)})
    return make


SEQ = 200


@jax.jit
def one_by_one(t, xs):
    """Single insertions in a scan."""
    def step(t, x):
        t, ins, idx = t.insert(x)
        return t, (ins, idx.index)
    return jax.lax.scan(step, t, xs)


def run_table(case):
    li, nstates, cap, bucket, blen, mode = case["cfg"][:6]
    mult, limit = (list(case["cfg"][6:]) + [None, None])[:2]
    roomy = len(case["cfg"]) < 8  # every state fits
    mostly = nstates if roomy else cap * (mult or 2)
    spec, cls = L.POOL[li], T.hashed_class(li, mode)
    t = HashTable.build(cls, case.get("hseed", 7), cap, bucket_size=bucket, **({} if mult is None else {"hash_size_multiplier": mult}), **({} if limit is None else {"max_probes": limit}))
    where = np.full(nstates, -1, np.int64)  # state -> handle
    labels, grown, snaps = set(), 0, []

    def verify(t, where, what):
        stored = np.flatnonzero(where >= 0)
        check(int(t.size) == len(stored), "{}: size is {} but {} distinct states are stored", what, int(t.size), len(stored))
        codes = np.resize(np.arange(nstates), -(-nstates // blen) * blen)
        for s in range(0, len(codes), blen):
            c = codes[s:s + blen]
            idx, found = t.lookup_parallel(rows(li, nstates, c, cls))
            found, idx = np.asarray(found), np.asarray(idx.index).astype(np.int64)
            allof(found == (where[c] >= 0), what + ": lookup_parallel of state {} says found={}, expected {}", c, found, where[c] >= 0)
            allof((where[c] < 0) | (idx == where[c]), what + ": lookup_parallel of state {} returned handle {}, expected {}", c, idx, where[c])
            h = np.where(where[c] >= 0, where[c], where[stored[0]] if len(stored) else 0)
            back = tags_of(li, nstates, L.to_np(spec, t[HashIdx(index=jnp.asarray(h.astype(np.uint32)))]))
            allof((where[c] < 0) | (back == c), what + ": the handle of state {} gives back state {}", c, back)
        allh = where[stored]
        check(len(np.unique(allh)) == len(allh), "{}: two states share a handle", what)
        if len(allh):
            occ = np.bincount(allh // bucket)
            top = np.zeros(len(occ), np.int64)
            np.maximum.at(top, allh // bucket, allh % bucket + 1)
            allof(occ == top, what + ": a bucket of {} states reaches up to slot {}", occ, top)

    pre = [{"op": "pins", "seed": 1, "levels": 0, "fill": 100, "block": s} for s in range(0, min(nstates, mostly) * case.get("pre", 0) // 100, blen)][:12]
    for op in pre + case["ops"]:
        rng = np.random.RandomState(op["seed"])
        if op["op"] == "snap":
            snaps.append((t, where.copy()))
        elif op["op"] == "one":
            c = int(rng.randint(nstates))
            t, ins, idx = t.insert(rows(li, nstates, [c], cls)[0])
            check(bool(ins) == (where[c] < 0) or (not roomy and where[c] < 0), "insert of state {} says inserted={}", c, bool(ins))
            check(where[c] < 0 or where[c] == int(idx.index), "insert of state {} returned handle {}, expected {}", c, int(idx.index), where[c])
            if bool(ins):
                where[c] = int(idx.index)
        elif op["op"] == "seq":
            c = rng.randint(0, nstates, SEQ)
            t, (ins, idx) = one_by_one(t, rows(li, nstates, c, cls))
            ins, idx = np.asarray(ins), np.asarray(idx).astype(np.int64)
            _, first = np.unique(c, return_index=True)
            fresh = np.isin(np.arange(SEQ), first) & (where[c] < 0)
            if roomy:
                allof(ins == fresh, "single insert of state {} says inserted={}, expected {}", c, ins, fresh)
            else:
                stay = where[c] >= 0
                allof(~(ins & stay), "single insert of present state {} says inserted={}", c, ins)
                check(len(np.unique(c[ins])) == int(ins.sum()), "a state was reported inserted twice by single inserts")
                if (fresh & ~ins).any():
                    labels.add("single rejected")
            since = np.where(where >= 0, -1, SEQ)  # from which row on is each state stored
            since[c[ins]] = np.flatnonzero(ins)
            told = np.arange(SEQ) >= since[c]
            where[c[ins]] = idx[ins]
            allof(~told | (idx == where[c]), "single insert of state {} returned handle {}, the state is at {}", c, idx, where[c])
            check(len(np.unique(where[where >= 0])) == int((where >= 0).sum()), "new states share handles with others")
            labels.add("single inserts in a scan")
        elif op["op"] == "lookp":
            c = rng.randint(0, nstates, blen)
            idx, found = t.lookup_parallel(rows(li, nstates, c, cls))
            allof(np.asarray(found) == (where[c] >= 0), "lookup_parallel of state {} says found={}, expected {}", c, np.asarray(found), where[c] >= 0)
        else:
            if "block" in op:
                c = np.resize(np.arange(op["block"], min(op["block"] + blen, nstates)), blen)
            else:
                pool = rng.permutation(nstates)[: max(1, nstates * op["spread"] // 100)]
                c = pool[rng.randint(0, len(pool), blen)]
            filled = rng.rand(blen) < op["fill"] / 100
            key = rng.randint(0, op["levels"], blen).astype(op["kdt"]) if op["levels"] else None
            kw = {"filled": jnp.asarray(filled)}
            if key is not None:
                kw["unique_key"] = jnp.asarray(key)
            t, ins, uni, idx = t.parallel_insert(rows(li, nstates, c, cls), **kw)
            ins, uni, idx = np.asarray(ins), np.asarray(uni), np.asarray(idx.index).astype(np.int64)
            check(ins.shape == (blen,) and uni.shape == (blen,) and idx.shape == (blen,), "parallel_insert result shapes {} {} {}", ins.shape, uni.shape, idx.shape)
            pri = np.zeros(blen) if key is None else key.astype(np.float64)
            order = np.lexsort((np.arange(blen), pri, c, ~filled))
            order = order[filled[order]]
            rep = np.zeros(blen, bool)
            rep[order[np.r_[True, np.diff(c[order]) != 0][: len(order)]]] = True
            allof(uni == rep, "row with state {} (filled {}) reported unique={}, expected {}", c, filled, uni, rep)
            new = rep & (where[c] < 0)
            if roomy:
                allof(ins == new, "row with state {} reported inserted={}, expected {}", c, ins, new)
            else:
                allof(~ins | new, "row with state {} reported inserted={} but is stored already, unfilled or a duplicate", c, ins)
                if (new & ~ins).any():
                    labels.add("batch rejected")
                new = ins
            before = where.copy()
            where[c[new]] = idx[new]
            allof(~filled | (where[c] < 0) | (idx == where[c]), "row with state {} got handle {}, the state is at {}", c, idx, where[c])
            check(len(np.unique(where[where >= 0])) == int((where >= 0).sum()), "new states share handles with others")
            grown += int(new.sum()) > 0 and (before >= 0).any()
            if rep.sum() < filled.sum():
                labels.add("batch duplicates")
        check(int(t.size) == int((where >= 0).sum()), "size is {} but {} distinct states are stored", int(t.size), int((where >= 0).sum()))
    verify(t, where, "final table")
    for s, w in snaps[:1]:
        verify(s, w, "older version")
        labels.add("older version re-read")
    if not roomy:
        return bool(labels & {"single rejected", "batch rejected"}), sorted(labels | {"hash:" + mode, "limit" if limit else "no limit"})
    return grown > 0, sorted(labels | {"hash:" + mode, f"batch {blen}"})


TABLE_RULE = ("batches of 260-1500 rows (thorough: also 33000 and 70000) into tables of up to 9000 (140000) states with duplicates, masks, priorities; vectorised oracle with the same claims; "
              "non-trivial: the table grew from a non-empty state")

# ---------------------------------------------------------------- priority queues
# (layout, total, batch, key dtype)
HEAPS = [(1, 3000, 300, "float32"), (12, 6000, 1000, "float32"), (9, 2000, 64, "float16"), (3, 1300, 260, "float32"), (7, 4096, 512, "float32")]
HUGE_HEAPS = [(1, 280000, 70000, "float32"), (3, 140000, 33000, "float32"), (1, 6000, 4, "float32")]


def heap_strategy(configs):
    def make(shard):
        mine = [c for i, c in enumerate(configs) if i % 4 == shard % 4] or configs
        ins = st.fixed_dictionaries({"op": st.just("ins"), "seed": st.integers(0, 10 ** 6), "n": st.sampled_from([100, 100, 100, 70, 13, 1]), "levels": st.sampled_from([1, 4, 300, 10 ** 6]),
                                     "shift": st.integers(-5, 5)})
        other = st.fixed_dictionaries({"op": st.sampled_from(["del", "del", "del", "snap"]), "seed": st.just(0)})
        return st.fixed_dictionaries({"cfg": st.sampled_from(mine).map(list), "ops": st.lists(st.one_of(ins, ins, other), min_size=3, max_size=16)})
    return make


def run_heap(case, over=False):
    li, total, batch, kdt = case["cfg"]
    spec, cls, dt = L.POOL[li], L.build(L.POOL[li]), L.npdt(kdt)
    ntab = total * (3 if total < 20000 else 2) + 2 * batch
    if li == 7:
        ntab = min(ntab, 12000)
    heap = BGPQ.build(total, batch, cls, L.DT[kdt])
    cap = -(-total // batch) * batch
    key = np.full(ntab, np.nan)  # tag -> key while stored
    live = np.zeros(ntab, bool)
    nxt, nins, ndel, labels, snaps = 0, 0, 0, set(), []

    def drain_one(heap, live, key):
        heap, k, v = heap.delete_mins()
        k = np.asarray(k)
        check(k.shape == (batch,) and k.dtype == dt, "delete_mins keys are {} {}", k.shape, k.dtype)
        kk = k.astype(np.float64)
        stored = np.sort(key[live])[:batch]
        exp = np.concatenate([stored, np.full(batch - len(stored), np.inf)])
        allof(kk == exp, "delete_mins returned key {}, expected {}", kk, exp)
        tags = tags_of(li, ntab, L.to_np(spec, v))[: len(stored)]
        allof(tags >= 0, "key {} came with a value that was never inserted", kk[: len(stored)])
        allof(live[tags], "value #{} (key {}) is not (or no longer) stored", tags, kk[: len(stored)])
        allof(key[tags] == kk[: len(stored)], "value #{} was inserted with key {} but came with {}", tags, key[tags], kk[: len(stored)])
        check(len(np.unique(tags)) == len(tags), "a value was returned twice")
        live = live.copy()
        live[tags] = False
        check(int(heap.size) == int(live.sum()), "size is {} but {} pairs are stored", int(heap.size), int(live.sum()))
        return heap, live

    for op in case["ops"]:
        if op["op"] == "snap":
            snaps.append((heap, live.copy(), key.copy()))
        elif op["op"] == "del":
            ndel += live.any()
            heap, live = drain_one(heap, live, key)
        else:
            rng = np.random.RandomState(op["seed"])
            n = max(1, batch * op["n"] // 100)
            n = min(n, cap - int(live.sum()), ntab - nxt)
            if n <= 0:
                continue
            ks = ((rng.randint(0, min(op["levels"], 4000) if kdt == "float16" else op["levels"], n) + op["shift"] * 2) / 4).astype(np.float32).astype(dt)
            tags = np.arange(nxt, nxt + n)
            nxt += n
            bk, bv = BGPQ.make_batched(jnp.asarray(ks), rows(li, ntab, tags), batch)
            check(np.asarray(bk).shape == (batch,) and (np.asarray(bk)[:n] == ks).all() and np.isposinf(np.asarray(bk)[n:].astype(np.float64)).all(), "make_batched keys differ")
            back = tags_of(li, ntab, L.to_np(spec, bv))[:n]
            allof(back == tags, "make_batched gives value #{} where #{} was passed", back, tags)
            heap = heap.insert(bk, bv)
            live = live.copy()
            live[tags], key[tags] = True, ks.astype(np.float64)
            nins += 1
            check(int(heap.size) == int(live.sum()), "size is {} but {} pairs are stored", int(heap.size), int(live.sum()))
            if live.sum() == cap:
                labels.add("exactly full")
    limit = 40 if batch > 20 else 400
    for _ in range(limit):
        if not live.any():
            break
        heap, live = drain_one(heap, live, key)
    for h, l, k in snaps[:1]:
        check(int(h.size) == int(l.sum()), "size of an older queue changed")
        for _ in range(limit):
            if not l.any():
                break
            h, l = drain_one(h, l, k)
        labels.add("older version drained")
    return nins >= 2 and ndel >= 1, sorted(labels | {f"batch {batch}", f"key {kdt}"})


HEAP_RULE = ("queues with batches of 64-1000 (thorough: up to 70000, and 1500 nodes) pairs, ties from one key to all different; vectorised oracle with the same claims; non-trivial: at least two inserts "
             "and one delete from a non-empty queue")


def deep_strategy(shard):
    return st.fixed_dictionaries({"cfg": st.sampled_from([[1, 1100, 1, "float32"], [4, 900, 3, "float32"], [0, 700, 2, "float16"]][shard % 3:][:1]),
                                  "seed": st.integers(0, 10 ** 6), "order": st.sampled_from(["up", "down", "random", "zigzag", "few", "random"]), "mix": st.sampled_from([0, 0, 1, 2])})


@functools.lru_cache(None)
def scan_fn(li, total, batch, kdt):
    """A whole history in one compiled program: a sequence of inserts (op 0), deletes (op 1)."""
    cls = L.build(L.POOL[li])

    def prog(ops, keys, vals):
        def step(h, xs):
            op, k, v = xs
            h, ok, ov = jax.lax.cond(op == 0, lambda h: (h.insert(k, v), jnp.full_like(k, jnp.inf), v), lambda h: h.delete_mins(), h)
            return h, (ok, ov, h.size)
        return jax.lax.scan(step, BGPQ.build(total, batch, cls, L.DT[kdt]), (ops, keys, vals))
    return jax.jit(prog)


def run_deep(case):
    """Queues of hundreds of nodes, filled and drained inside one compiled scan (deep heap paths)."""
    li, total, batch, kdt = case["cfg"]
    spec, dt = L.POOL[li], L.npdt(kdt)
    rng = np.random.RandomState(case["seed"])
    nodes = -(-total // batch)
    ops = []
    size = 0
    for i in range(nodes * 2):
        if case["mix"] and size and rng.rand() < 0.12 * case["mix"]:
            ops.append(1)
            size -= 1
        elif size < nodes and i < nodes:
            ops.append(0)
            size += 1
        else:
            ops.append(1)
            size -= 1
        size = max(size, 0)
    ops = np.asarray(ops[: nodes * 2], np.int32)
    m = len(ops)
    nk = m * batch
    base = {"up": np.arange(nk), "down": -np.arange(nk), "random": rng.randint(-4000, 4000, nk), "zigzag": np.where(np.arange(nk) % 2, np.arange(nk), -np.arange(nk)), "few": rng.randint(0, 4, nk)}[case["order"]]
    keys = (base % 2001 if kdt == "float16" else base).astype(np.float32).astype(dt).reshape(m, batch)
    ntab = nk
    vals = rows(li, ntab, np.arange(nk)).reshape((m, batch))
    h, (ok, ov, sizes) = scan_fn(li, total, batch, kdt)(jnp.asarray(ops), jnp.asarray(keys), vals)
    ok, sizes = np.asarray(ok).astype(np.float64), np.asarray(sizes)
    otags = tags_of(li, ntab, {p: a.reshape((nk,) + a.shape[2:]) for p, a in L.to_np(spec, ov).items()}).reshape(m, batch)
    live, flat = np.zeros(nk, bool), keys.astype(np.float64).reshape(-1)
    for i in range(m):
        if ops[i] == 0:
            live[i * batch:(i + 1) * batch] = True
        else:
            stored = np.sort(flat[live])[:batch]
            exp = np.concatenate([stored, np.full(batch - len(stored), np.inf)])
            check((ok[i] == exp).all(), "step {}: delete_mins returned {}, expected {}", i, ok[i].tolist(), exp.tolist())
            t = otags[i][: len(stored)]
            check((t >= 0).all() and live[t].all() and (flat[t] == exp[: len(stored)]).all() and len(set(t.tolist())) == len(t), "step {}: values #{} came with keys {}", i, t.tolist(), exp.tolist())
            live[t] = False
        check(int(sizes[i]) == int(live.sum()), "step {}: size {} expected {}", i, int(sizes[i]), int(live.sum()))
    return True, [case["order"], f"nodes {nodes}"]


DEEP_RULE = "queues of 300-1100 nodes filled and drained inside one compiled scan (deep heap paths), keys ascending, descending, alternating, random, heavily tied; non-trivial: every case"

# ---------------------------------------------------------------- queues and stacks
# (layout, max_size, batch)
SEQS = [(1, 700, 130), (2, 70000, 14000), (9, 1500, 300), (4, 36000, 9000), (0, 1300, 257)]


def seq_strategy(shard):
    mine = [c for i, c in enumerate(SEQS) if i % 2 == shard % 2]
    op = st.one_of(st.just(["put"]), st.just(["put"]), st.just(["put"]), st.just(["take"]), st.just(["take"]), st.tuples(st.just("take"), st.just(1)).map(list), st.just(["peek"]), st.tuples(st.just("at"), st.integers(0, 10 ** 6)).map(list),
                   st.just(["one"]), st.just(["snap"]), st.just(["fill"]))
    return st.fixed_dictionaries({"cfg": st.sampled_from(mine).map(list), "start": st.integers(0, 99), "ops": st.lists(op, min_size=4, max_size=14)})


def run_seq(kind, case):
    li, cap, b = case["cfg"]
    spec, cls = L.POOL[li], L.build(L.POOL[li])
    ntab = cap + 1000
    o = (Queue if kind == "queue" else Stack).build(cap, cls)
    put, take, peek, get = (_seqfn(kind, n) for n in ("put", "take", "peek", "get"))
    items, used, nxt, puts, takes, snaps = np.zeros(0, np.int64), 0, case["start"], 0, 0, []
    arrs, _, _ = table(li, ntab)

    def same(got, tags, single, what):
        exp = {p: a[tags[0]] if single else a[tags] for p, a in arrs.items()}
        d = L.same(exp, L.to_np(spec, got))
        check(d is None, "{}: {}", what, d)

    for op in case["ops"]:
        room = cap - (used if kind == "queue" else len(items))
        if op[0] in ("put", "one", "fill"):
            n = {"put": b, "one": 1, "fill": room}[op[0]]
            if not 0 < n <= room:
                continue
            tags = (np.arange(nxt, nxt + n)) % ntab
            o = put(o, rows(li, ntab, tags)[0] if op[0] == "one" else rows(li, ntab, tags))
            items, used, nxt, puts = np.r_[items, tags], used + n, nxt + n, puts + 1
        elif op[0] in ("take", "peek"):
            n = 1 if len(op) > 1 else b
            if n > len(items):
                continue
            exp = items[:n] if kind == "queue" else items[len(items) - n:]
            if op[0] == "peek":
                same(peek(o, n), exp, n == 1, f"peek({n})")
            else:
                o, got = take(o, n)
                same(got, exp, n == 1, f"take({n}) of {len(items)} items")
                items = items[n:] if kind == "queue" else items[: len(items) - n]
                takes += 1
        elif op[0] == "at" and len(items):
            for i in {op[1] % len(items), len(items) - 1, min(255, len(items) - 1), min(256, len(items) - 1)}:
                same(get(o, i), [items[i]], True, f"[{i}] of {len(items)}")
        elif op[0] == "snap":
            snaps.append((o, items))
        check(int(o.size) == len(items), "size is {}, expected {}", int(o.size), len(items))
    for o2, it in [(o, items)] + snaps[:1]:
        check(int(o2.size) == len(it), "size is {}, expected {}", int(o2.size), len(it))
        while len(it) >= b:
            o2, got = take(o2, b)
            same(got, it[:b] if kind == "queue" else it[len(it) - b:], False, f"final take({b}) of {len(it)} items")
            it = it[b:] if kind == "queue" else it[: len(it) - b]
        for _ in range(min(len(it), 5)):
            o2, got = take(o2, 1)
            same(got, it[:1] if kind == "queue" else it[-1:], True, f"final take of {len(it)} items")
            it = it[1:] if kind == "queue" else it[:-1]
    return puts >= 2 and takes >= 1, [f"capacity {cap}"]


@functools.lru_cache(None)
def _seqfn(kind, op):
    if op == "put":
        return jax.jit((lambda o, x: o.enqueue(x)) if kind == "queue" else (lambda o, x: o.push(x)))
    if op == "take":
        return jax.jit((lambda o, n: o.dequeue(n)) if kind == "queue" else (lambda o, n: o.pop(n)), static_argnums=1)
    if op == "peek":
        return jax.jit(lambda o, n: o.peek(n), static_argnums=1)
    return jax.jit(lambda o, i: o[i])


SEQ_RULE = "containers of 400-70000 items moved in batches of up to 20000, positions past 8 and 16 bits; non-trivial: at least two puts and one take"

# ---------------------------------------------------------------- single operations on large batches
UNIQ = [(1, 300), (9, 5000), (12, 70000), (3, 33000), (7, 257), (2, 1000)]


def unique_strategy(shard):
    return st.fixed_dictionaries({"cfg": st.sampled_from(UNIQ[shard % 2::2]).map(list), "seed": st.integers(0, 10 ** 6), "states": st.sampled_from([2, 50, 100, 90, 100]), "levels": st.sampled_from([0, 0, 1, 4, 10 ** 5]),
                                  "fill": st.sampled_from([100, 90, 30]), "cdt": st.sampled_from(["float32", "int32"]), "dup": st.sampled_from([1, 1, 2, 10])})


def run_unique(case):
    from xtructure import numpy as xnp
    li, n = case["cfg"]
    spec = L.POOL[li]
    rng = np.random.RandomState(case["seed"])
    nst = max(1, n * case["states"] // 100)
    c = rng.randint(0, nst, n) // case["dup"]
    filled = rng.rand(n) < case["fill"] / 100
    cost = rng.randint(0, case["levels"], n).astype(case["cdt"]) if case["levels"] else None
    mask, idx, inv = xnp.unique_mask(rows(li, n, c), key=None if cost is None else jnp.asarray(cost), filled=jnp.asarray(filled), return_index=True, return_inverse=True)
    mask, idx, inv = np.asarray(mask), np.asarray(idx).astype(np.int64), np.asarray(inv).astype(np.int64)
    pri = np.zeros(n) if cost is None else cost.astype(np.float64)
    order = np.lexsort((np.arange(n), pri, c, ~filled))
    order = order[filled[order]]
    want = np.zeros(n, bool)
    want[order[np.r_[True, np.diff(c[order]) != 0][: len(order)]]] = True
    allof(mask == want, "row with state {} (filled {}, cost {}) selected={}, expected {}", c, filled, pri, mask, want)
    check(len(idx) == want.sum() and np.array_equal(np.sort(idx), np.flatnonzero(want)), "index lists {} rows, {} are selected", len(idx), int(want.sum()))
    rep = np.full(nst, -1, np.int64)
    rep[c[want]] = np.flatnonzero(want)
    ok = ~filled | ((inv >= 0) & (inv < len(idx)))
    allof(ok, "inverse of a row with state {} is {}", c, inv)
    allof(~filled | (idx[np.clip(inv, 0, len(idx) - 1)] == rep[c]), "inverse of a row with state {} leads to row {}, its representative is {}", c, idx[np.clip(inv, 0, max(len(idx) - 1, 0))], rep[c])
    return int(want.sum()) < int(filled.sum()), [f"{n} rows", case["cdt"] if cost is not None else "no cost"]


UNIQ_RULE = "batches of 257-70000 rows over up to as many states; vectorised oracle with the same claims; non-trivial: some state occurs twice"
INDEX = [(1, 300), (9, 5000), (12, 70000), (3, 40000), (7, 257), (10, 1000)]


def index_strategy(shard):
    return st.fixed_dictionaries({"cfg": st.sampled_from(INDEX[shard % 2::2]).map(list), "seed": st.integers(0, 10 ** 6), "op": st.sampled_from(["get", "set", "cond", "cond", "cond", "take", "scatter", "where", "slice", "concat", "mask"]),
                                  "m": st.sampled_from([1, 300, 1000, 70000]), "spread": st.sampled_from([100, 100, 10, 1]), "idt": st.sampled_from(["int32", "uint32"]), "density": st.sampled_from([0.1, 0.5, 1.0]),
                                  "scalar": st.booleans()})


def run_index(case):
    from xtructure import numpy as xnp
    li, n = case["cfg"]
    spec = L.POOL[li]
    rng = np.random.RandomState(case["seed"])
    ntab = 2 * n if li != 7 else n + 300
    arrs, _, _ = table(li, ntab)
    m = min(case["m"], n if case["op"] == "set" else 4 * n)
    top = max(1, n * case["spread"] // 100)
    x = rows(li, ntab, np.arange(n))
    vt = n + rng.randint(0, ntab - n, m)
    ix = rng.permutation(n)[:m] if case["op"] == "set" else (n - 1 - rng.randint(0, top, m))
    ji = jnp.asarray(ix.astype(case["idt"]))
    want = np.arange(n)  # tags expected
    op = case["op"]
    if op == "get":
        got, want = x[ji], ix
    elif op == "take":
        got, want = xnp.take(x, ji, axis=0), ix
    elif op == "slice":
        s = slice(int(ix[0]) // 2, n, 3)
        got, want = x[s], want[s]
    elif op == "mask":
        keep = rng.rand(n) < case["density"]
        got, want = x[jnp.asarray(keep)], want[keep]
    elif op == "concat":
        got, want = xnp.concat([x, rows(li, ntab, vt)]), np.r_[want, vt]
    elif op == "where":
        c = rng.rand(n) < case["density"]
        vt = n + rng.randint(0, ntab - n, n)
        got, want = xnp.where(jnp.asarray(c), x, rows(li, ntab, vt)), np.where(c, want, vt)
    elif op == "set":
        got = x.at[ji].set(rows(li, ntab, vt[0:1])[0] if case["scalar"] else rows(li, ntab, vt))
        want[ix] = vt[0] if case["scalar"] else vt
    else:
        c = rng.rand(m) < case["density"]
        val = rows(li, ntab, vt[0:1])[0] if case["scalar"] else rows(li, ntab, vt)
        if op == "scatter":
            got = xnp.update_on_condition(x, ji, jnp.asarray(c), val)
        else:
            got = x.at[ji].set_as_condition(jnp.asarray(c), val)
        sel, first = np.unique(ix[c], return_index=True)
        want[sel] = vt[0] if case["scalar"] else vt[c][first]
    g = L.to_np(spec, got)
    d = L.same({p: a[want] for p, a in arrs.items()}, g)
    check(d is None, "{} of {} positions in a batch of {}: {}", op, m, n, d)
    return True, [op, f"batch {n}", f"{m} positions"]


INDEX_RULE = "reads and updates at up to 70000 (repeated) positions of batches of 257-70000 rows; oracle: the same operation on row tags; non-trivial: every case"
