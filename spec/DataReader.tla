----------------------------- MODULE DataReader -----------------------------
(* Reading in groups of k batches from the shares of the data-parallel ranks.  *)
(* p: [n |-> ranks, len |-> share lengths, k |-> group size, drop, sync, last] *)
(* y: per rank [pos |-> batches taken from the share, eod |-> end reported],   *)
(* batches of a share are numbered from 1.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MinOf(a, b) == IF a < b THEN a ELSE b
InitY(p) == [r \in 1..p.n |-> [pos |-> 0, eod |-> FALSE]]

\* What rank r can offer in this round, and where that leaves its share.
Taken(p, y, r) == MinOf(p.k, p.len[r] - y[r].pos)
Offer(p, y, r) == IF p.drop /\ Taken(p, y, r) # p.k THEN 0 ELSE Taken(p, y, r)
Shares(p) == p.sync /\ p.n > 1
Agreed(p, y) == CHOOSE m \in {Offer(p, y, r) : r \in 1..p.n} : \A r \in 1..p.n : m <= Offer(p, y, r)
AnyOffer(p, y) == \E r \in 1..p.n : Offer(p, y, r) > 0

Ends(p, y, r) == \/ y[r].eod
                 \/ IF Shares(p) THEN (IF p.last THEN ~AnyOffer(p, y) ELSE Agreed(p, y) = 0)
                    ELSE Offer(p, y, r) = 0
Count(p, y, r) == IF Shares(p) /\ ~p.last THEN Agreed(p, y) ELSE Offer(p, y, r)
\* <<-1>> stands for the end of the data.
Got(p, y, r) == IF Ends(p, y, r) THEN <<-1>> ELSE [i \in 1..Count(p, y, r) |-> y[r].pos + i]
Read(p, y) == [r \in 1..p.n |-> IF y[r].eod THEN y[r]
                                ELSE [pos |-> y[r].pos + Taken(p, y, r), eod |-> Ends(p, y, r)]]
Reset(p, y) == InitY(p)
Mark(p, y) == [r \in 1..p.n |-> y[r].pos]
Restore(p, y, m) == [r \in 1..p.n |-> [pos |-> m[r], eod |-> FALSE]]
=============================================================================
