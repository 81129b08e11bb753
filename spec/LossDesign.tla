---------------------------- MODULE LossDesign ----------------------------
(* All small batches: a padded batch is cut into inputs and targets, models  *)
(* ignore what is padding.  What remains is next-token prediction.           *)
EXTENDS Loss, TLC, Json
CONSTANTS MaxRows, MaxLen_, V, Emitting

VARIABLES rows, masks, extra, smooth, phase
vars == <<rows, masks, extra, smooth, phase>>

Tok == 0..(V - 1)
Row == UNION {[1..n -> Tok] : n \in 2..MaxLen_}
MaskOf(r) == [1..Len(r) -> BOOLEAN]

\* Mode of training: how a batch is padded (extra columns) and whether padding
\* is told by a layout, a pad symbol or a mask.
Init ==
    /\ \E n \in 1..MaxRows : rows \in [1..n -> Row]
    /\ masks \in {m \in [1..Len(rows) -> UNION {[1..n -> BOOLEAN] : n \in 2..MaxLen_}] : \A k \in 1..Len(rows) : Len(m[k]) = Len(rows[k])}
    /\ extra \in 0..1
    /\ smooth \in {<<0, 1>>, <<1, 2>>}
    /\ phase = "batch"
Next == phase = "batch" /\ phase' = "done" /\ UNCHANGED <<rows, masks, extra, smooth>>
Spec == Init /\ [][Next]_vars

\* The padded batch and its two parts; a pad symbol outside of the vocabulary.
Pad == V
Width == MaxLen(rows) + extra
Padded(r, x) == [i \in 1..Width |-> IF i <= Len(r) THEN r[i] ELSE x]
Seqs == [k \in 1..Len(rows) |-> Padded(rows[k], Pad)]
Mask == [k \in 1..Len(rows) |-> Padded(masks[k], FALSE)]
Targets == [k \in 1..Len(rows) |-> Tail(Seqs[k])]
TMask == [k \in 1..Len(rows) |-> Tail(Mask[k])]
InLens == [k \in 1..Len(rows) |-> Len(rows[k]) - 1]

Got(mask, pad, lens) ==
    {<<k, i, Targets[k][i]>> : <<k, i>> \in {x \in (1..Len(rows)) \X (1..(Width - 1)) :
        /\ Counted(Targets[x[1]][x[2]], mask[x[1]][x[2]], pad)
        /\ lens # <<>> => x[2] <= lens[x[1]]}}
AllTrue == [k \in 1..Len(rows) |-> [i \in 1..(Width - 1) |-> TRUE]]
NoMask == [k \in 1..Len(rows) |-> [i \in 1..Len(rows[k]) |-> TRUE]]

\* Padding is told by the mask, by the pad symbol or by the layout: the same pairs.
ByMask == Got(TMask, None, <<>>) = Pairs(rows, masks)
ByPad == Got(AllTrue, Pad, <<>>) = Pairs(rows, NoMask)
ByLayout == /\ Got(AllTrue, None, InLens) = Pairs(rows, NoMask)
            /\ Got(TMask, None, InLens) = Pairs(rows, masks)
\* Each token but the first of a row is predicted once, from those before it.
Complete == Cardinality(Pairs(rows, NoMask)) = FoldLeft(LAMBDA s, n : s + n, 0, InLens)
\* A batch is trained on as its rows are one by one.
Additive ==
    Pairs(rows, masks) = UNION {{<<k, p[2], p[3]>> : p \in Pairs(<<rows[k]>>, <<masks[k]>>)} : k \in 1..Len(rows)}
\* Whatever the smoothing, a target that counts weighs as much as any other.
Sum(f) == FoldLeft(LAMBDA s, n : s + n, 0, f)
Even == \A k \in 1..Len(rows) :
    LET w == Weights(Targets[k], TMask[k], None, V + 1, smooth[1], smooth[2]) IN
    /\ \A i \in 1..(Width - 1) : Sum(w[i]) = (IF TMask[k][i] THEN smooth[2] * V ELSE 0)
    /\ NumCounted(Targets[k], TMask[k], None) > 0 =>
       Sum([i \in 1..(Width - 1) |-> Sum(w[i])]) = Scale(Targets[k], TMask[k], None, V + 1, smooth[2], "mean")
Emit == phase = "batch" /\ Emitting =>
    PrintT("GEN|" \o ToJson([rows |-> rows, masks |-> masks, extra |-> extra, smooth |-> smooth]))
=============================================================================
