--------------------------- MODULE SpanMaskDesign ---------------------------
(* All ways to place spans on all small rows, and to give up elements until  *)
(* all rows have equally many: every result is admissible and leaves         *)
(* something to see; and what is admissible can come about this way.         *)
EXTENDS SpanMask, TLC
CONSTANTS MaxLen, Rows, Den
VARIABLES lens, span, num, starts, rows, stage
vars == <<lens, span, num, starts, rows, stage>>
Width == CHOOSE m \in {lens[i] : i \in 1..Len(lens)} : \A i \in 1..Len(lens) : lens[i] <= m
Init ==
    /\ lens \in UNION {[1..n -> 2..MaxLen] : n \in 1..Rows}
    /\ span \in 1..(MaxLen - 1)
    /\ num \in 1..Den
    /\ ~Refuse(lens, span, 1, num, Den)
    /\ starts = [i \in 1..Len(lens) |-> <<>>]
    /\ rows = [i \in 1..Len(lens) |-> [k \in 1..Width |-> 0]]
    /\ stage = "place"
N == Spans(lens, span, num, Den)
Place ==
    /\ stage = "place"
    /\ \E i \in 1..Len(lens) :
        /\ Len(starts[i]) < N
        /\ \A j \in 1..(i - 1) : Len(starts[j]) = N
        /\ \E s \in 1..(lens[i] - span + 1) :
            /\ starts' = [starts EXCEPT ![i] = Append(@, s)]
            /\ rows' = [rows EXCEPT ![i] = [k \in 1..Width |-> IF k \in s..(s + span - 1) THEN 1 ELSE @[k]]]
    /\ UNCHANGED <<lens, span, num, stage>>
Fewest == Least([i \in 1..Len(lens) |-> Cardinality(Masked(rows[i]))])
Full == \A i \in 1..Len(lens) : Len(starts[i]) = N
GiveUp ==
    /\ Full
    /\ \E i \in 1..Len(lens) : \E k \in Masked(rows[i]) :
        /\ Cardinality(Masked(rows[i])) > Fewest
        /\ rows' = [rows EXCEPT ![i][k] = 0]
    /\ UNCHANGED <<lens, span, num, starts>>
    /\ stage' = "even"
Next == Place \/ GiveUp
Spec == Init /\ [][Next]_vars
Done == Full /\ \A i \in 1..Len(lens) : Cardinality(Masked(rows[i])) = Fewest
Sound == Done => Admissible(rows, lens, span, num, Den)
SomethingLeft == \A i \in 1..Len(lens) : Cardinality(Masked(rows[i])) < lens[i]
NoPadding == \A i \in 1..Len(lens) : \A k \in Masked(rows[i]) : k <= lens[i]
=============================================================================
