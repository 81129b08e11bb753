--------------------------- MODULE LossScalerTrace ---------------------------
(* Recorded steps.  In a step every rank i has gradients with largest absolute *)
(* value g[i] (or inf[i]); half precision gradients overflow above cap units.  *)
EXTENDS LossScaler, Batch
VARIABLES s, slots
vars == <<tid, l, s, slots>>
P == Cfg.p
N == Cfg.n
BadOf(e, i) == e.inf[i] \/ (Cfg.cap > 0 /\ ~P.noop /\ e.g[i] * s.scale > Cfg.cap * Cfg.unit)

StepOp ==
    LET e == Ev bad == \E i \in 1..N : BadOf(e, i) IN
    /\ e.op = "step"
    /\ \A i \in 1..N :
         /\ Exp("result of rank " \o ToString(i - 1), e.res[i], Result(P, s, bad))
         /\ Exp("parameters updated at rank " \o ToString(i - 1), e.applied[i], IF Applied(P, bad) THEN "exactly" ELSE "not")
         /\ IF e.manual /\ ~bad THEN Exp("unscaled gradients at rank " \o ToString(i - 1), e.unscaled[i], TRUE) ELSE TRUE
    /\ s' = After(P, s, bad)
    /\ UNCHANGED slots
SaveOp == Ev.op = "save" /\ slots' = Append(slots, s) /\ UNCHANGED s
RestoreOp ==
    /\ Ev.op = "restore"
    /\ \A i \in 1..N : Exp("restore at rank " \o ToString(i - 1), Ev.res[i], "ok")
    /\ s' = slots[Ev.slot] /\ UNCHANGED slots
RefuseOp ==
    /\ Ev.op = "refuse"
    /\ \A i \in 1..N : Exp("malformed state is refused", Ev.res[i], "StateDictError")
    /\ UNCHANGED <<s, slots>>

Init == BatchInit /\ s = Fresh(Traces[tid].cfg.p) /\ slots = <<>>
Step == IF Ev.op \in {"step", "save", "restore", "refuse"}
        THEN StepOp \/ SaveOp \/ RestoreOp \/ RefuseOp
        ELSE Rej("no error: " \o Ev.what) /\ FALSE /\ UNCHANGED <<s, slots>>
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
