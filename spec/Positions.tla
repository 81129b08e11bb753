----------------------------- MODULE Positions ------------------------------
(* Which position every place of a batch is encoded with.  A layout is       *)
(* either packed (sequences one after the other in one row) or has a row for *)
(* each sequence; None stands for padding, about which nothing is said.      *)
EXTENDS Integers, Sequences
None == -1
RECURSIVE PackedRow(_, _, _, _)
PackedRow(lens, width, start, i) ==
    IF i > Len(lens) THEN [k \in 1..width |-> None]
    ELSE [k \in 1..lens[i] |-> start + k - 1] \o PackedRow(lens, width - lens[i], start, i + 1)
Row(len, width, start) == [k \in 1..width |-> IF k <= len THEN start + k - 1 ELSE None]
Place(packed, lens, width, start) ==
    IF packed THEN <<PackedRow(lens, width, start, 1)>> ELSE [i \in 1..Len(lens) |-> Row(lens[i], width, start)]
Longest(lens) == CHOOSE m \in {lens[i] : i \in 1..Len(lens)} : \A i \in 1..Len(lens) : lens[i] <= m
\* Steps of an incremental evaluation count only where there is one.
Start(step, training) == IF training THEN 0 ELSE step
Refused(lens, start, most) == start + Longest(lens) > most
=============================================================================
