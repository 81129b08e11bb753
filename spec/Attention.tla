------------------------------- MODULE Attention -------------------------------
(* What a position attends to.  Positions count from 0.  A bias is a record     *)
(* [k |-> "none" | "causal" | "window" | "chunk" | "alibi", n |-> size].        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Causal(b) == b.k # "none"
Sees(b, i, j) ==
    CASE b.k = "none" -> TRUE
      [] b.k \in {"causal", "alibi"} -> j <= i
      [] b.k = "window" -> j <= i /\ (i - j) < b.n
      [] b.k = "chunk" -> j <= i /\ (i \div b.n) = (j \div b.n)
\* qn queries are aligned with the last of kn keys.
Visible(b, qn, kn, i) == {j \in 0..(kn - 1) : Sees(b, i + (kn - qn), j)}
Least(a, b) == IF a < b THEN a ELSE b
Suffix(q, n) == SubSeq(q, Len(q) - Least(Len(q), n) + 1, Len(q))
IsSuffix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, Len(q) - Len(p) + 1, Len(q))
\* How many past positions a cache must hold for the positions to come.
Past(b, len) == IF b.k = "window" THEN Least(len, b.n - 1) ELSE len
=============================================================================
