"""Model-based drivers for Queue and Stack (P09, P10, P24)."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import layouts as L
from pbt.common import check
from xtructure import Queue, Stack

NROW = 64
# (layout, max_size, enqueue batch sizes, dequeue batch sizes)
CONFIGS = [
    (0, 12, (1, 3), (1, 2, 5)), (1, 1, (1,), (1,)), (2, 7, (2, 4), (1, 3)), (3, 20, (5, 1), (1, 4)), (4, 16, (8, 3), (1, 2)), (5, 9, (3, 0), (1, 3, 0)),
    (6, 30, (7, 2), (1, 6)), (7, 10, (2, 5), (1, 5)), (8, 13, (4, 1), (1, 2)), (9, 8, (3, 2), (1, 4)), (10, 11, (2, 6), (1, 3)), (11, 5, (5, 2), (1, 2)),
]


@functools.lru_cache(None)
def rows(li):
    spec = L.POOL[li]
    big = L.arrays(spec, (NROW * 6,), salt=9)
    seen, idx = set(), []
    for r in range(NROW * 6):
        k = L.row_key(big, r)
        if k not in seen:
            seen.add(k)
            idx.append(r)
    return {p: a[idx[:NROW]] for p, a in big.items()}


def inst(li, tags, single=False):
    a = rows(li)
    t = [x % NROW for x in tags]
    return L.from_np(L.POOL[li], {p: v[t[0]] if single else v[np.asarray(t, dtype=int)] for p, v in a.items()})


def expect(li, got, tags, single, what):
    a = rows(li)
    t = [x % NROW for x in tags]
    exp = {p: v[t[0]] if single else v[np.asarray(t, dtype=int)] for p, v in a.items()}
    d = L.same(exp, L.to_np(L.POOL[li], got))
    check(d is None, "{} (expected items {}): {}", what, tags, d)
    check(type(got) is L.build(L.POOL[li]), "{} returned a {}", what, type(got))


class Seq:
    """kind 'queue' or 'stack'; jit: run each operation inside a compiled program of ours."""

    def __init__(self, kind, cfg, jitted):
        self.kind, self.cfg, self.jitted = kind, cfg, jitted
        self.li, self.cap, _, _ = CONFIGS[cfg]
        self.obj = (Queue if kind == "queue" else Stack).build(self.cap, L.build(L.POOL[self.li]))
        self.items, self.used = [], 0
        self.labels = set()

    def fn(self, op, n=None):
        return _fn(self.kind, op, n, self.jitted)

    def room(self):
        return self.cap - (self.used if self.kind == "queue" else len(self.items))

    def put(self, tags, single):
        x = inst(self.li, tags, single) if tags else L.build(L.POOL[self.li]).default((0,))
        self.obj = self.fn("put")(self.obj, x)
        self.items += tags
        self.used += len(tags)
        if self.room() == 0:
            self.labels.add("filled exactly")

    def front(self, n):
        return self.items[:n] if self.kind == "queue" else self.items[len(self.items) - n:]

    def take(self, n):
        exp = self.front(n)
        self.obj, got = self.fn("take", n)(self.obj)
        expect(self.li, got, exp, n == 1, f"{'dequeue' if self.kind == 'queue' else 'pop'}({n})")
        self.items = self.items[n:] if self.kind == "queue" else self.items[: len(self.items) - n]
        if not self.items:
            self.labels.add("drained")

    def peek(self, n):
        before = self.obj
        got = self.fn("peek", n)(self.obj)
        expect(self.li, got, self.front(n), n == 1, f"peek({n})")
        check(before is self.obj, "peek")

    def at(self, i):
        got = self.fn("get")(self.obj, i)
        expect(self.li, got, [self.items[i]], True, f"[{i}] of {len(self.items)}")

    def clear(self):
        self.obj = self.fn("clear")(self.obj)
        self.items, self.used = [], 0
        self.labels.add("cleared")

    def check_size(self):
        check(int(self.obj.size) == len(self.items), "size is {}, expected {}", int(self.obj.size), len(self.items))

    def check_contents(self, obj, items):
        check(int(obj.size) == len(items), "older version: size {} expected {}", int(obj.size), len(items))
        for i in range(len(items)):
            expect(self.li, self.fn("get")(obj, i), [items[i]], True, f"older version [{i}] of {len(items)}")


@functools.lru_cache(None)
def _fn(kind, op, n, jitted):
    f = {"put": (lambda o, x: o.enqueue(x)) if kind == "queue" else (lambda o, x: o.push(x)),
         "take": (lambda o: o.dequeue(n)) if kind == "queue" else (lambda o: o.pop(n)),
         "peek": lambda o: o.peek(n), "get": lambda o, i: o[i], "clear": lambda o: o.clear()}[op]
    if op in ("take", "peek") and n == 1 and not jitted:
        f = {"take": (lambda o: o.dequeue()) if kind == "queue" else (lambda o: o.pop()), "peek": lambda o: o.peek()}[op]
    return jax.jit(f) if jitted else f


def strategy(kind):
    def make(shard):
        mine = [i for i in range(len(CONFIGS)) if i % 6 == shard % 6]

        def ops(c):
            _, cap, enq, deq = CONFIGS[c]
            put = st.one_of(st.tuples(st.just("put"), st.sampled_from(enq)), st.tuples(st.just("put"), st.sampled_from(enq)), st.just(("one",)), st.just(("one",)))
            take = st.tuples(st.just("take"), st.sampled_from(deq))
            other = [st.tuples(st.just("peek"), st.sampled_from(deq)), st.tuples(st.just("at"), st.integers(0, 31)), st.just(("snap",)), st.just(("fill",)), st.just(("drain",))]
            if kind == "queue":
                other.append(st.just(("clear",)))
            op = st.one_of(put, put, take, take, *other).map(list)
            return st.integers(3, 40).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))

        return st.sampled_from(mine).flatmap(lambda c: st.fixed_dictionaries(
            {"cfg": st.just(c), "jit": st.just(c % 3 == 0), "start": st.integers(0, 20), "ops": ops(c)}))
    return make


def run(kind, case):
    s = Seq(kind, case["cfg"], case["jit"])
    nxt, snaps, puts, takes = case["start"], [], 0, 0
    s.check_size()

    def put(n, single=False):
        nonlocal nxt, puts
        if n > s.room():
            return False
        s.put(list(range(nxt, nxt + n)), single)
        nxt += n
        puts += n > 0
        return n > 0

    for op in case["ops"]:
        if op[0] == "put":
            put(op[1])
        elif op[0] == "one":
            put(1, True)
        elif op[0] == "fill":
            while put(1, True):
                pass
        elif op[0] == "drain":
            while s.items:
                s.take(1)
            s.check_size()
        elif op[0] == "take":
            if op[1] <= len(s.items):
                s.take(op[1])
                takes += op[1] > 0 and bool(s.items)
        elif op[0] == "peek":
            if op[1] <= len(s.items):
                s.peek(op[1])
        elif op[0] == "at":
            if s.items:
                s.at(op[1] % len(s.items))
        elif op[0] == "clear":
            s.clear()
        elif op[0] == "snap" and len(snaps) < 3:
            snaps.append((s.obj, list(s.items)))
        s.check_size()
    while s.items:
        s.take(1)
    s.check_size()
    for o, items in snaps:
        s.check_contents(o, items)
    s.labels.add("compiled" if case["jit"] else "eager")
    return puts >= 2 and takes >= 1, sorted(s.labels)


# -- whole histories inside one compiled program: lax.scan over op codes
PROG_LEN = 24


@functools.lru_cache(None)
def program(kind, li, cap):
    cls = L.build(L.POOL[li])

    def prog(ops, items):
        obj = (Queue if kind == "queue" else Stack).build(cap, cls)

        def step(o, xs):
            op, item = xs
            def do_put(o):
                return (o.enqueue(item) if kind == "queue" else o.push(item)), item
            def do_take(o):
                return o.dequeue() if kind == "queue" else o.pop()
            def do_peek(o):
                return o, o.peek()
            def do_none(o):
                return (o.clear() if kind == "queue" else o), item
            o, out = jax.lax.switch(op, [do_put, do_take, do_peek, do_none], o)
            return o, (out, o.size)
        return jax.lax.scan(step, obj, (ops, items))
    return jax.jit(prog)


def prog_strategy(kind):
    def make(shard):
        return st.fixed_dictionaries({"cfg": st.sampled_from([i for i in range(len(CONFIGS)) if i % 2 == shard % 2]), "start": st.integers(0, 20),
                                      "ops": st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 3]), min_size=PROG_LEN, max_size=PROG_LEN)})
    return make


def run_prog(kind, case):
    li, cap, _, _ = CONFIGS[case["cfg"]]
    model, used, ops, outs, sizes = [], 0, [], [], []
    for k, op in enumerate(case["ops"]):
        tag = case["start"] + k
        full = (used if kind == "queue" else len(model)) >= cap
        if op == 0 and full or op in (1, 2) and not model:
            op = 3
        if op == 3 and kind == "queue":
            model, used = [], 0
            outs.append(tag)
        elif op == 0:
            model.append(tag)
            used += 1
            outs.append(tag)
        elif op in (1, 2):
            outs.append(model[0] if kind == "queue" else model[-1])
            if op == 1:
                model = model[1:] if kind == "queue" else model[:-1]
        else:
            outs.append(tag)
        ops.append(op)
        sizes.append(len(model))
    final, (got, gsizes) = program(kind, li, cap)(jnp.asarray(ops), inst(li, range(case["start"], case["start"] + PROG_LEN)))
    check(np.asarray(gsizes).tolist() == sizes, "sizes inside the compiled program {} expected {}", np.asarray(gsizes).tolist(), sizes)
    expect(li, got, outs, False, "items returned inside the compiled program")
    for i, t in enumerate(model):
        expect(li, final[i], [t], True, f"[{i}] of the final value")
    return ops.count(1) >= 2 and ops.count(0) >= 3, ["scan"]
