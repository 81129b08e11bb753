--------------------------- MODULE ProcessorsDesign ---------------------------
(* Texts that grow by tokens that are not forbidden: exactly those without     *)
(* repeated n-grams, and without banned sequences.                             *)
EXTENDS Processors, TLC
CONSTANTS V, Depth, N, Maxb
VARIABLES s, banned, bad
vars == <<s, banned, bad>>
Seqs(n) == UNION {[1..i -> 1..V] : i \in 1..n}
Init == s = <<>> /\ banned \in {{a, b} : a \in Seqs(Maxb), b \in Seqs(Maxb)} /\ bad = FALSE
Grow == /\ Len(s) < Depth /\ ~bad
        /\ \E t \in 1..V : s' = Append(s, t) /\ bad' = (t \in NgramBans(s, N, V) \cup SeqBans(s, banned))
        /\ UNCHANGED banned
Next == Grow
Spec == Init /\ [][Next]_vars
Broken == Repeats(s, N) \/ \E q \in banned : OccursIn(q, s)
Exactly == bad <=> Broken
=============================================================================
