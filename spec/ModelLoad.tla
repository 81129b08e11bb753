----------------------------- MODULE ModelLoad -----------------------------
(* Creating a model, or loading it from a checkpoint, on the ranks of a     *)
(* job: what every rank does, and what its parameters (p), persistent       *)
(* buffers (b) and other buffers (n) hold then.  Contents are the rank that *)
(* initialized them plus one, CKPT, EMPTY, or 0 on the meta device.         *)
EXTENDS Naturals, Sequences, TLC
CKPT == 100
EMPTY == 101
\* o = [op, meta, first, sm]: first - only the first data parallel rank is to have the model;
\* sm - the family supports the meta device.
Prog(o, dp) ==
    IF o.op = "new" THEN
        LET made == IF dp = 0 THEN o.meta ELSE o.sm IN
        <<IF made THEN "meta" ELSE "init">>
        \o (IF o.meta THEN <<>> ELSE <<"barrier">> \o (IF o.first \/ ~o.sm THEN <<>> ELSE <<"sync">> \o (IF dp # 0 THEN <<"np">> ELSE <<>>) \o <<"barrier">>))
    ELSE <<IF o.sm THEN "meta" ELSE "init">>
        \o (IF dp = 0 THEN (IF o.sm THEN <<"empty">> ELSE <<>>) \o <<"load">> \o (IF o.sm THEN <<"np">> ELSE <<>>) ELSE <<>>)
        \o <<"barrier">>
        \o (IF o.first THEN <<>> ELSE <<"sync">> \o (IF o.sm THEN (IF dp # 0 THEN <<"np">> ELSE <<>>) \o <<"barrier">> ELSE <<>>))
All(v) == [p |-> v, b |-> v, n |-> v]
\* What a rank does by itself.
Do(i, c, rank) ==
    CASE i = "meta" -> All(0)
      [] i = "init" -> All(rank + 1)
      [] i = "empty" -> All(EMPTY)
      [] i = "load" -> [c EXCEPT !.p = CKPT, !.b = CKPT]
      [] i = "np" -> [c EXCEPT !.n = rank + 1]
      [] OTHER -> c
\* Syncing takes a model off the meta device first.
Ready(c, rank) == IF c.p = 0 THEN All(rank + 1) ELSE c
\* What is to come of it: the statement.
Goal(o, rank, dp, leader) ==
    LET mine == IF o.op = "new" THEN rank + 1 ELSE CKPT
        his == IF o.op = "new" THEN leader + 1 ELSE CKPT IN
    IF o.op = "new" /\ o.meta THEN All(0)
    ELSE IF dp = 0 THEN [p |-> mine, b |-> mine, n |-> rank + 1]
    ELSE IF o.first \/ (o.op = "new" /\ ~o.sm) THEN All(IF o.sm THEN 0 ELSE rank + 1)
    ELSE [p |-> his, b |-> his, n |-> rank + 1]
============================================================================
