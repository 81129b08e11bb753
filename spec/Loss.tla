------------------------------- MODULE Loss -------------------------------
(* What a language model is trained on.  A batch of token sequences becomes  *)
(* inputs and targets; a loss sums -log p over (position, token) with        *)
(* weights.  The specification says which positions predict which tokens,    *)
(* and with what weight each log probability enters the loss.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == -1

(* ---- the loss over rows of targets ------------------------------------- *)

\* Target t counts if it is not padding and its mask says so.
Counted(t, m, pad) == t # pad /\ m

NumCounted(ts, ms, pad) == Cardinality({i \in 1..Len(ts) : Counted(ts[i], ms[i], pad)})

\* Weight of -log p(v) at a position with target t, times b * (V - 1), for a
\* label smoothing of a / b: the target has 1 - a/b, any other token an equal
\* share of a/b.
Share(v, t, V, a, b) == IF v = t THEN (b - a) * (V - 1) ELSE a

Weights(ts, ms, pad, V, a, b) ==
    [i \in 1..Len(ts) |->
        [v \in 1..V |-> IF Counted(ts[i], ms[i], pad) THEN Share(v - 1, ts[i], V, a, b) ELSE 0]]

\* What the weights are divided by: b * (V - 1), and the number of targets
\* that count for a mean.
Scale(ts, ms, pad, V, b, red) == b * (V - 1) * (IF red = "mean" THEN NumCounted(ts, ms, pad) ELSE 1)

(* ---- next-token prediction ---------------------------------------------- *)

MaxLen(rows) == CHOOSE n \in {Len(rows[k]) : k \in 1..Len(rows)} : \A k \in 1..Len(rows) : Len(rows[k]) <= n

\* rows: token sequences without padding; masks: which tokens may be predicted.
\* Position i of row r predicts token i + 1 of the row.
Pairs(rows, masks) ==
    {<<r, i, rows[r][i + 1]>> : <<r, i>> \in
        {x \in (1..Len(rows)) \X (1..(IF rows = <<>> THEN 0 ELSE MaxLen(rows))) :
            x[2] < Len(rows[x[1]]) /\ masks[x[1]][x[2] + 1]}}
=============================================================================
