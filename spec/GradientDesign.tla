---------------------------- MODULE GradientDesign ----------------------------
(* What the trainer does to get there: each rank adds up the gradients of its   *)
(* micro-batches; the synchronization with a backward pass averages what the    *)
(* ranks have accumulated; the normalization multiplies by ranks / all targets. *)
(* However the examples are dealt, every rank ends with the promised gradient.  *)
EXTENDS Gradient, TLC, Json, SequencesExt
CONSTANTS Ranks, Micro, Examples, NoSync, Counted, Emitting
VARIABLES deal, pos, acc, ph
vars == <<deal, pos, acc, ph>>

X == [i \in 1..Examples |-> <<i, ((i * i) % 5) - 2>>]
T == [i \in 1..Examples |-> i % 3]
\* Values are in units of 1 / U, so that averaging is exact.
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
U == Pow(Ranks, Micro) * Micro

Slots == (1..Ranks) \X (1..Micro)
Of(asg, r, j) == SetToSortSeq({i \in 1..Examples : asg[i] = <<r, j>>}, LAMBDA a, b : a < b)
Init == /\ \E asg \in [1..Examples -> Slots] : deal = [r \in 1..Ranks |-> [j \in 1..Micro |-> Of(asg, r, j)]]
        /\ pos = [r \in 1..Ranks |-> 0] /\ acc = [r \in 1..Ranks |-> <<0, 0>>] /\ ph = "back"
        /\ (Emitting => PrintT("GEN|" \o ToJson(deal)))

Loss(r, j, d) == (Vec(X, deal[r][j], d) * U) \div (IF Counted THEN 1 ELSE Micro)
Plus(r, j) == [d \in 1..2 |-> acc[r][d] + Loss(r, j, d)]
\* A backward pass without synchronization.
Local(r) == /\ ph = "back" /\ NoSync /\ pos[r] < Micro - 1
            /\ acc' = [acc EXCEPT ![r] = Plus(r, pos[r] + 1)] /\ pos' = [pos EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<deal, ph>>
\* A backward pass with it, on all ranks together.
Joint == LET j == pos[1] + 1 IN
         /\ ph = "back" /\ \A r \in 1..Ranks : pos[r] = j - 1
         /\ j <= Micro /\ (NoSync => j = Micro)
         /\ acc' = [r \in 1..Ranks |-> [d \in 1..2 |-> Sum([q \in 1..Ranks |-> Plus(q, j)[d]]) \div Ranks]]
         /\ pos' = [r \in 1..Ranks |-> j] /\ UNCHANGED <<deal, ph>>
Normalize == /\ ph = "back" /\ pos = [r \in 1..Ranks |-> Micro] /\ ph' = "done"
             \* Times the ranks; the division by the targets is left to the comparison.
             /\ acc' = IF Counted THEN [r \in 1..Ranks |-> [d \in 1..2 |-> acc[r][d] * Ranks]] ELSE acc
             /\ UNCHANGED <<deal, pos>>
Next == ~Emitting /\ ((\E r \in 1..Ranks : Local(r)) \/ Joint \/ Normalize)
Spec == Init /\ [][Next]_vars

Promised == ph = "done" => \A r \in 1..Ranks, d \in 1..2 :
              acc[r][d] * (IF Counted THEN 1 ELSE Den(T, deal, Counted)) = Num(X, deal, d) * U
Exact == \A r \in 1..Ranks, d \in 1..2 : ph = "back" /\ pos[r] = 0 => acc[r][d] = 0
=============================================================================
