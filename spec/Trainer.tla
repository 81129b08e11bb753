------------------------------- MODULE Trainer -------------------------------
(* The training loop: reads, step attempts, and the periodic work at the       *)
(* boundaries (after a completed step, at the end of a data epoch, at the end).*)
(*                                                                             *)
(* p: reader settings (see DataReader) and                                     *)
(*   maxS, maxE  bounds on steps and data epochs, 0 for none                   *)
(*   save, pub, val  schedules <<after steps, every steps, after epochs, every *)
(*                   epochs>>, 0 for no interval                               *)
(*   hasVal, atStart, scored, early (steps whose score makes the early stopper *)
(*   fire), bad (per rank: batches whose gradients overflow), sc, minSc        *)
(*   (exponents of the initial and of the least loss scale), fp16              *)
(* s: [n |-> last completed step, e |-> data epoch, y |-> readers, ph |-> phase*)
(*     done |-> work done since step n was completed, tried |-> any attempt,   *)
(*     stop |-> "no"/"soft"/"hard", sc, m, tot |-> metrics, b |-> batches in   *)
(*     hand, saved |-> steps saved so far in this run, old |-> work that an    *)
(*     earlier life may have done for step n]                                  *)
EXTENDS DataReader

Elems(q) == {q[i] : i \in DOMAIN q}
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE SumRanks(_, _)
SumRanks(b, r) == IF r = 0 THEN 0 ELSE SumRanks(b, r - 1) + SumSeq(b[r])

InitS(p) == [n |-> 0, e |-> 1, y |-> InitY(p), ph |-> "start", done |-> {}, tried |-> FALSE, stop |-> "no",
             sc |-> p.sc, m |-> 0, tot |-> 0, b |-> <<>>, saved |-> {}, old |-> {}]

Avail(p) == {"save", "pub"} \cup (IF p.hasVal THEN {"val"} ELSE {})
Sched(p, k) == CASE k = "save" -> p.save [] k = "pub" -> p.pub [] k = "val" -> p.val
DueStep(p, k, n) == LET c == Sched(p, k) IN c[2] > 0 /\ n > c[1] /\ n % c[2] = 0
DueEpoch(p, k, e) == LET c == Sched(p, k) IN c[4] > 0 /\ e > c[3] /\ e % c[4] = 0

(* Reading. *)
ReadEnds(p, s) == Ends(p, s.y, 1)
AfterRead(p, s) ==
    IF ReadEnds(p, s)
    THEN [s EXCEPT !.y = InitY(p), !.b = <<>>, !.ph = IF s.tried \/ s.n > 0 THEN "epoch" ELSE "empty"]
    ELSE [s EXCEPT !.y = Read(p, s.y), !.b = [r \in 1..p.n |-> Got(p, s.y, r)], !.ph = "attempt"]

(* An attempt at step s.n + 1. *)
Overflows(p, s) == p.fp16 /\ \E r \in 1..p.n : \E i \in DOMAIN s.b[r] : s.b[r][i] \in Elems(p.bad[r])
Explodes(p, s) == Overflows(p, s) /\ s.sc - 1 < p.minSc
AfterAttempt(p, s) ==
    IF Overflows(p, s)
    THEN [s EXCEPT !.sc = @ - 1, !.tried = TRUE, !.b = <<>>, !.ph = IF Explodes(p, s) THEN "exploded" ELSE "again"]
    ELSE [s EXCEPT !.n = @ + 1, !.tried = TRUE, !.b = <<>>, !.ph = "step", !.done = {}, !.old = {},
                   !.m = @ + SumRanks(s.b, p.n), !.tot = @ + SumRanks(s.b, p.n)]

(* Work at a boundary: what must be and what may be done, and what follows.    *)
Work(p, s) ==
    LET all == Avail(p)
        did == s.done \cup s.old
        halt == [must |-> all \ did, may |-> all, end |-> "stopped"]
        \* Work done at the end of an epoch is repeated if the epoch completed no step.
        again == IF s.ph = "epoch" THEN {k \in all : ~DueStep(p, k, s.n)} ELSE {}
        last == [must |-> all \ did, may |-> (all \ s.done) \cup again, end |-> IF s.stop = "no" THEN "done" ELSE "stopped"]
        due(D, R) == IF "val" \in D /\ p.scored /\ s.n \in Elems(p.early)
                     THEN [must |-> D \cup ({"save"} \ s.done), may |-> D \cup R \cup ({"save"} \ s.done), end |-> "stopped"]
                     ELSE [must |-> D, may |-> D \cup R, end |-> "go"] IN
    CASE s.ph = "start" -> LET D == IF p.atStart /\ p.hasVal THEN {"val"} ELSE {} IN [must |-> D, may |-> D, end |-> "go"]
      [] s.ph = "step" /\ p.maxS > 0 /\ s.n >= p.maxS -> last
      [] s.ph = "step" /\ s.stop = "hard" -> halt
      [] s.ph = "step" -> due({k \in all : DueStep(p, k, s.n)}, {})
      [] s.ph = "again" /\ s.stop = "hard" -> IF s.n = 0 THEN [halt EXCEPT !.must = {}] ELSE halt
      [] s.ph = "again" -> [must |-> {}, may |-> {}, end |-> "go"]
      [] s.ph = "epoch" /\ p.maxE > 0 /\ s.e >= p.maxE -> last
      [] s.ph = "epoch" /\ s.stop = "hard" -> halt
      [] s.ph = "epoch" -> LET D == {k \in all : DueEpoch(p, k, s.e)} IN due(D \ did, {k \in D : ~DueStep(p, k, s.n)})
      [] s.ph = "empty" -> [must |-> {}, may |-> {}, end |-> IF s.stop = "no" THEN "done" ELSE "stopped"]
      [] s.ph = "exploded" -> [must |-> {}, may |-> {}, end |-> "MinimumLossScaleReachedError"]
NextEpoch(s) == IF s.ph = "epoch" THEN s.e + 1 ELSE s.e
\* A reported metric starts afresh; totals stay.
AfterWork(p, s, kinds) == [s EXCEPT !.e = NextEpoch(s), !.ph = "read", !.done = @ \cup kinds,
                                    !.m = IF "pub" \in kinds THEN 0 ELSE @,
                                    !.saved = IF "save" \in kinds THEN @ \cup {s.n} ELSE @]
\* What a checkpoint holds: the position a resumed run goes on from.
Saved(s) == [n |-> s.n, e |-> NextEpoch(s), y |-> s.y, sc |-> s.sc, tot |-> s.tot]
Resumed(p, c) == [InitS(p) EXCEPT !.n = c.n, !.e = c.e, !.y = Restore(p, c.y, Mark(p, c.y)), !.sc = c.sc, !.tot = c.tot, !.ph = "read",
                                  !.tried = TRUE,
                                  !.old = {k \in Avail(p) : DueStep(p, k, c.n)}]
Over(p, c) == (p.maxS > 0 /\ c.n >= p.maxS) \/ (p.maxE > 0 /\ c.e > p.maxE)
=============================================================================
