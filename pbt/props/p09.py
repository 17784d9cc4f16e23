"""P09: Queue = list (FIFO)."""
from pbt import big, seqs as S
from pbt.common import Sub, x64

RULE = ("histories of single / batched enqueue, dequeue, peek, indexing, clear, fill-exactly, drain and snapshots over 12 configurations "
        "(a third run compiled); non-trivial: at least two non-empty enqueues and one dequeue that leaves items behind")
SUBS = [Sub("history", S.strategy("queue"), lambda c: S.run("queue", c), quick=4200, shards=6, rule=RULE),
        Sub("program", S.prog_strategy("queue"), lambda c: S.run_prog("queue", c), quick=1400, shards=2,
            rule="24-step histories inside one compiled scan; non-trivial: >= 3 enqueues and >= 2 dequeues")]
SUBS.append(Sub("large", big.seq_strategy, lambda c: big.run_seq("queue", c), quick=80, thorough=1500, shards=2, rule=big.SEQ_RULE))
SUBS += x64(SUBS, history=400, program=100)
