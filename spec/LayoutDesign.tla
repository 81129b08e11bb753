----------------------------- MODULE LayoutDesign -----------------------------
(* Batches built one sequence at a time, padded, and shifted into the inputs and *)
(* targets of an autoregressive model.  held[x]: element (sequence, position) in *)
(* slot x, or nothing.                                                           *)
EXTENDS Layout, TLC
CONSTANTS MaxSeqs, MaxLen, MaxPad
VARIABLES packed, lens, w, held, inp, tgt
vars == <<packed, lens, w, held, inp, tgt>>
Init == packed \in BOOLEAN /\ lens = <<>> /\ w = 0 /\ held = <<>> /\ inp = <<>> /\ tgt = <<>>
Elems(s, n) == [p \in 1..n |-> <<s, p - 1>>]
Add(n) ==
    /\ w = 0 /\ Len(lens) < MaxSeqs
    /\ lens' = Append(lens, n)
    /\ held' = held \o Elems(Len(lens) + 1, n)
    /\ UNCHANGED <<packed, w, inp, tgt>>
Hole == <<0, -1>>
RECURSIVE Rows(_, _)
Rows(s, width) == IF s > Len(lens) THEN <<>> ELSE Elems(s, lens[s]) \o [x \in 1..(width - lens[s]) |-> Hole] \o Rows(s + 1, width)
Pad(k) ==
    /\ w = 0 /\ lens # <<>>
    /\ w' = (IF packed THEN Total(lens) ELSE MaxOf(lens, 0)) + k
    /\ held' = IF packed THEN held \o [x \in 1..k |-> Hole] ELSE Rows(1, w')
    /\ UNCHANGED <<packed, lens, inp, tgt>>
Shift ==
    /\ w > 1 /\ inp = <<>> /\ Shiftable(packed, lens)
    /\ LET a == ShiftSlots(packed, Len(lens), w, 0) b == ShiftSlots(packed, Len(lens), w, 1) IN
       inp' = [x \in 1..Len(a) |-> held[a[x] + 1]] /\ tgt' = [x \in 1..Len(b) |-> held[b[x] + 1]]
    /\ UNCHANGED <<packed, lens, w, held>>
Next == (\E n \in 1..MaxLen : Add(n)) \/ (\E k \in 0..MaxPad : Pad(k)) \/ Shift
Spec == Init /\ [][Next]_vars
N == Len(lens)
Right == w > 0 =>
    /\ Valid(packed, N, w, lens)
    /\ Len(held) = Slots(packed, N, w)
    /\ \A x \in 1..Len(held) : LET o == Owner(packed, w, lens, x - 1) IN
         IF held[x] = Hole THEN o = {} /\ Position(packed, w, lens, x - 1) = -1
         ELSE o = {held[x][1]} /\ Position(packed, w, lens, x - 1) = held[x][2] /\ Slot(packed, w, lens, held[x][1], held[x][2]) = x - 1
    /\ Cardinality({x \in 1..Len(held) : held[x] = Hole}) = Padding(packed, N, w, lens)
\* The real elements of the shifted batch: every input has its successor as target;
\* no element is an input twice; every element that has a successor in its sequence is one.
Shifted == inp # <<>> =>
    LET l2 == ShiftLens(packed, lens)
        n2 == IF packed THEN Len(l2) ELSE N
        real == {x \in 1..Len(inp) : Position(packed, w - 1, l2, x - 1) >= 0} IN
    /\ Valid(packed, n2, w - 1, l2)
    /\ \A x \in real : inp[x] # Hole /\ tgt[x] # Hole
    /\ \A x \in real : IF tgt[x][1] = inp[x][1] THEN tgt[x][2] = inp[x][2] + 1
                       ELSE packed /\ tgt[x] = <<inp[x][1] + 1, 0>> /\ inp[x][2] = lens[inp[x][1]] - 1
    /\ \A x, y \in real : inp[x] = inp[y] => x = y
    /\ \A s \in 1..N : \A p \in 0..(lens[s] - 2) : \E x \in real : inp[x] = <<s, p>>
    /\ \A x \in real : Position(packed, w - 1, l2, x - 1) = inp[x][2]
=============================================================================
