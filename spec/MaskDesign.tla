------------------------------ MODULE MaskDesign ------------------------------
(* How a mask is put together from the blocks of the sequences of a batch, one  *)
(* after the other.  A padded batch is a stack of masks of one sequence each; a *)
(* packed batch is one mask of several.  seen[q]: the keys that query q sees.   *)
EXTENDS Attention, TLC
CONSTANTS MaxLen, MaxSeqs, MaxPad, Kinds, Sizes
VARIABLES b, ql, kl, qw, kw, seen, at
vars == <<b, ql, kl, qw, kw, seen, at>>
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1] + Total(Tail(q))
From(q, s) == Total(SubSeq(q, 1, s - 1))
Init ==
    /\ \E k \in Kinds, n \in Sizes : b = [k |-> k, n |-> n]
    /\ \E m \in 1..MaxSeqs : \E q, r \in [1..m -> 1..MaxLen] :
         /\ \A s \in 1..m : b.k = "none" \/ q[s] <= r[s]
         /\ ql = q /\ kl = r
    /\ \E p \in 0..MaxPad : qw = Total(ql) + p
    /\ \E p \in 0..MaxPad : kw = Total(kl) + p
    /\ seen = [q \in 0..(qw - 1) |-> {}]
    /\ at = 1
Same == UNCHANGED <<b, ql, kl, qw, kw>>
Block ==
    /\ at <= Len(ql)
    /\ LET qf == From(ql, at) kf == From(kl, at) IN
       seen' = [q \in 0..(qw - 1) |->
           IF q >= qf /\ q < qf + ql[at] THEN {kf + j : j \in Visible(b, ql[at], kl[at], q - qf)} ELSE seen[q]]
    /\ at' = at + 1 /\ Same
Padding ==
    /\ at = Len(ql) + 1
    /\ LET qe == Total(ql) ke == Total(kl) IN
       seen' = [q \in 0..(qw - 1) |-> IF q < qe THEN seen[q] ELSE IF ke < kw THEN ke..(kw - 1) ELSE 0..(kw - 1)]
    /\ at' = at + 1 /\ Same
Next == Block \/ Padding
Spec == Init /\ [][Next]_vars
Done == at = Len(ql) + 2
SeqOf(q, lens) == CHOOSE s \in 1..Len(lens) : From(lens, s) <= q /\ q < From(lens, s + 1)
\* Defined for the batch as a whole, not by blocks.
Right == Done => \A q \in 0..(Total(ql) - 1) : LET s == SeqOf(q, ql) IN
    seen[q] = {k \in 0..(Total(kl) - 1) : SeqOf(k, kl) = s /\ Sees(b, (q - From(ql, s)) + (kl[s] - ql[s]), k - From(kl, s))}
NeverNothing == Done => \A q \in 0..(qw - 1) : seen[q] # {}
=============================================================================
