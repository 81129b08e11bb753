-------------------------------- MODULE Layout --------------------------------
(* Batches of sequences: padded (n rows of width w) or packed (one row of width *)
(* w).  Slots of a batch count from 0, row by row.  lens: lengths.              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1] + Total(Tail(q))
Upto(q, s) == Total(SubSeq(q, 1, s))
Valid(packed, n, w, lens) ==
    /\ w >= 1 /\ \A s \in 1..Len(lens) : lens[s] >= 1
    /\ IF packed THEN Total(lens) <= w ELSE Len(lens) = n /\ \A s \in 1..n : lens[s] <= w
Begins(packed, w, lens) == [s \in 1..(Len(lens) + 1) |-> IF packed THEN Upto(lens, s - 1) ELSE (s - 1) * w]
Slots(packed, n, w) == IF packed THEN w ELSE n * w
\* The slot of position p of sequence s, and back.
Slot(packed, w, lens, s, p) == Begins(packed, w, lens)[s] + p
Owner(packed, w, lens, x) == {s \in 1..Len(lens) : Begins(packed, w, lens)[s] <= x /\ x < Begins(packed, w, lens)[s] + lens[s]}
Position(packed, w, lens, x) ==
    LET o == Owner(packed, w, lens, x) IN IF o = {} THEN -1 ELSE x - Begins(packed, w, lens)[CHOOSE s \in o : TRUE]
Positions(packed, n, w, lens) == [x \in 1..Slots(packed, n, w) |-> Position(packed, w, lens, x - 1)]
Padding(packed, n, w, lens) == Slots(packed, n, w) - Total(lens)
MinOf(q, d) == IF q = <<>> THEN d ELSE CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x <= q[i]
MaxOf(q, d) == IF q = <<>> THEN d ELSE CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x >= q[i]
\* Inputs and targets of an autoregressive model: every element but the last (of
\* the row) is an input, whose target is the element that follows it.
Shiftable(packed, lens) == IF packed THEN lens # <<1>> ELSE \A s \in 1..Len(lens) : lens[s] > 1
ShiftLens(packed, lens) ==
    IF ~packed THEN [s \in 1..Len(lens) |-> lens[s] - 1]
    ELSE IF lens[Len(lens)] = 1 THEN SubSeq(lens, 1, Len(lens) - 1)
    ELSE [lens EXCEPT ![Len(lens)] = @ - 1]
\* The elements (slots of the batch) that a shifted batch holds, by slot.
ShiftSlots(packed, n, w, by) ==
    IF packed THEN [x \in 1..(w - 1) |-> (x - 1) + by]
    ELSE [x \in 1..(n * (w - 1)) |-> (((x - 1) \div (w - 1)) * w) + ((x - 1) % (w - 1)) + by]
=============================================================================
