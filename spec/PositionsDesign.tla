-------------------------- MODULE PositionsDesign ---------------------------
(* However sequences are laid out in batches and cut into steps, an element  *)
(* is encoded with its place in its own sequence.                            *)
EXTENDS Positions, TLC
CONSTANTS MaxLen, MaxSeqs, Pad
VARIABLES lens, packed, extra, pos, got
vars == <<lens, packed, extra, pos, got>>
Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
Init ==
    /\ lens \in UNION {[1..n -> 1..MaxLen] : n \in 1..MaxSeqs}
    /\ packed \in BOOLEAN
    /\ extra \in 0..Pad
    /\ pos = 0
    /\ got = [i \in 1..Len(lens) |-> <<>>]
\* A step of n elements of all sequences, cut to what is left of each (not packed), or everything at once.
Live == {i \in 1..Len(lens) : lens[i] > pos}
Step(n) ==
    /\ Live = 1..Len(lens)
    /\ ~packed
    /\ LET now == [i \in 1..Len(lens) |-> IF lens[i] - pos < n THEN lens[i] - pos ELSE n]
           rows == Place(FALSE, now, Longest(now) + extra, pos) IN
       got' = [i \in 1..Len(lens) |-> got[i] \o SubSeq(rows[i], 1, now[i])]
    /\ pos' = pos + n
    /\ UNCHANGED <<lens, packed, extra>>
Whole ==
    /\ packed /\ pos = 0
    /\ LET row == Place(TRUE, lens, Sum(lens) + extra, 0)[1]
           from == [i \in 1..Len(lens) |-> Sum(SubSeq(lens, 1, i - 1))] IN
       /\ got' = [i \in 1..Len(lens) |-> SubSeq(row, from[i] + 1, from[i] + lens[i])]
       /\ \A k \in (Sum(lens) + 1)..Len(row) : Assert(row[k] = None, "padding has a position")
    /\ pos' = Longest(lens)
    /\ UNCHANGED <<lens, packed, extra>>
Next == Whole \/ \E n \in 1..MaxLen : Step(n)
Spec == Init /\ [][Next]_vars
OwnPlace == \A i \in 1..Len(lens) : got[i] = [k \in 1..Len(got[i]) |-> k - 1]
All == (packed /\ pos > 0) => \A i \in 1..Len(lens) : Len(got[i]) = lens[i]
=============================================================================
