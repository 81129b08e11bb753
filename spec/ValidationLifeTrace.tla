-------------------------- MODULE ValidationLifeTrace --------------------------
(* Steps of a training run that validates are those of the same run without.         *)
EXTENDS Batch
VARIABLES n
Init == BatchInit /\ n = 0
Step ==
    LET e == Ev IN
    CASE e.op = "with" ->
            /\ Chk("more steps than without validation", n < Len(Cfg.ref))
            /\ Exp("step after a validation", e.step, Cfg.ref[n + 1])
            /\ n' = n + 1
      [] e.op = "end" ->
            /\ Exp("number of steps", n, Len(Cfg.ref))
            /\ Exp("batches of an incomplete validation", e.rest, 0)
            /\ UNCHANGED n
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<n, tid, l>>
=============================================================================
