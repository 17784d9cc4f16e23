"""P10: Stack = list (LIFO)."""
from pbt import big, seqs as S
from pbt.common import Sub, x64

RULE = ("histories of single / batched push, pop, peek, indexing, fill-exactly, drain and snapshots over 12 configurations "
        "(a third run compiled); non-trivial: at least two non-empty pushes and one pop that leaves items behind")
SUBS = [Sub("history", S.strategy("stack"), lambda c: S.run("stack", c), quick=4200, shards=6, rule=RULE),
        Sub("program", S.prog_strategy("stack"), lambda c: S.run_prog("stack", c), quick=1400, shards=2,
            rule="24-step histories inside one compiled scan; non-trivial: >= 3 pushes and >= 2 pops")]
SUBS.append(Sub("large", big.seq_strategy, lambda c: big.run_seq("stack", c), quick=80, thorough=1500, shards=2, rule=big.SEQ_RULE))
SUBS += x64(SUBS, history=400, program=100)
