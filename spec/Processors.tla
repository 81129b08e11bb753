------------------------------ MODULE Processors ------------------------------
(* What step processors forbid as the next token of a sequence. Tokens are     *)
(* 1..V here (their index plus one).                                           *)
EXTENDS Integers, Sequences, FiniteSets
EndsWith(s, q) == Len(q) <= Len(s) /\ SubSeq(s, Len(s) - Len(q) + 1, Len(s)) = q
OccursIn(q, s) == \E i \in 0..(Len(s) - Len(q)) : SubSeq(s, i + 1, i + Len(q)) = q
Repeats(s, n) == \E i, j \in 1..(Len(s) - n + 1) : i < j /\ SubSeq(s, i, i + n - 1) = SubSeq(s, j, j + n - 1)
\* Tokens that would complete an n-gram that the sequence already has.
NgramBans(s, n, V) == IF Len(s) < n - 1 THEN {}
    ELSE LET p == SubSeq(s, Len(s) - n + 2, Len(s)) IN
         {s[i + n - 1] : i \in {j \in 1..(Len(s) - n + 1) : SubSeq(s, j, j + n - 2) = p}} \cap 1..V
\* Tokens that would complete a banned sequence at the end.
SeqBans(s, banned) == {q[Len(q)] : q \in {b \in banned : EndsWith(s, SubSeq(b, 1, Len(b) - 1))}}
Bans(s, p, V) == IF p.k = "ngram" THEN NgramBans(s, p.n, V) ELSE SeqBans(s, {p.seqs[i] : i \in 1..Len(p.seqs)})
=============================================================================
