----------------------------- MODULE LossTrace -----------------------------
(* Losses computed by the real code.                                         *)
EXTENDS Loss, Batch
vars == <<tid, l>>

\* Rows cut to their real lengths.
Cut(x, lens) == [k \in 1..Len(lens) |-> SubSeq(x[k], 1, lens[k])]

Step ==
    LET e == Ev IN
    CASE e.op = "weights" ->
           LET w == Weights(e.ts, e.ms, e.pad, e.V, e.a, e.b) IN
           /\ Exp("errors", e.err, "")
           /\ Exp("scale of the loss of targets " \o ToJson(e.ts), e.scale, Scale(e.ts, e.ms, e.pad, e.V, e.b, e.red))
           /\ Exp("weights of the log probabilities, " \o e.red \o " reduction, targets " \o ToJson(e.ts) \o ", mask " \o ToJson(e.ms), e.w, w)
      [] e.op = "model" ->
           LET want == Pairs(Cut(e.rows, e.lens), Cut(e.masks, e.lens)) IN
           /\ Exp("errors", e.err, "")
           /\ Exp("positions and the tokens they are trained to predict", ToSet(e.pairs), want)
           /\ Exp("number of targets", e.n, Cardinality(want))
           /\ Exp("number of targets the batch reports", e.counted, Cardinality(want))
           /\ Exp("weight of each target, times the scale", ToSet(e.w), {1})
           /\ Exp("scale", e.scale, IF e.red = "mean" THEN Cardinality(want) ELSE 1)
           /\ Chk("padding changes the outputs at real positions", ~e.leaks)
           /\ Chk("a position sees what comes after it", ~e.sees)
           /\ Chk("the loss depends on whether logits are returned", e.same)
           /\ Chk("the loss is not what the logits give", e.agrees)
Init == BatchInit
Next == BatchMore /\ Step /\ BatchStep
Spec == Init /\ [][Next]_vars
=============================================================================
