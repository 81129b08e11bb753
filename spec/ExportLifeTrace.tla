---------------------------- MODULE ExportLifeTrace ----------------------------
(* A training run: every checkpoint saved is exported, in order, one at a time,     *)
(* while it is there; its hooks run once if the export succeeded.                    *)
EXTENDS Batch
VARIABLES pubs, runs, ok, hooks
vars == <<pubs, runs, ok, hooks>>
Init == BatchInit /\ pubs = <<>> /\ runs = <<>> /\ ok = <<>> /\ hooks = 0
\* Exports whose outcome is still to be reported.
Settled == IF ok = <<>> THEN hooks = 0 ELSE hooks = Len(ok) \/ ~ok[Len(ok)]
Pub(e) ==
    /\ Chk("checkpoint saved out of order", \A i \in 1..Len(pubs) : pubs[i] <= e.s)
    /\ pubs' = Append(pubs, e.s) /\ UNCHANGED <<runs, ok, hooks>>
Run(e) ==
    /\ Chk("export of a checkpoint that was not saved next", Len(pubs) > Len(runs) /\ pubs[Len(runs) + 1] = e.s)
    /\ Exp("exports over before the next one", Len(ok), Len(runs))
    /\ Chk("export before the one before it was reported", Settled)
    /\ Exp("checkpoint is there when it is exported", e.there, TRUE)
    /\ runs' = Append(runs, e.s) /\ UNCHANGED <<pubs, ok, hooks>>
End(e) == e.s = runs[Len(runs)] /\ ok' = Append(ok, e.ok) /\ UNCHANGED <<pubs, runs, hooks>>
Hook(e) ==
    /\ Chk("hook without an export", ok # <<>>)
    /\ Exp("hook of an export", e.s, runs[Len(ok)])
    /\ Exp("outcome of the export reported", ok[Len(ok)], TRUE)
    /\ Chk("export reported twice", hooks < Len(ok))
    /\ hooks' = Len(ok) /\ UNCHANGED <<pubs, runs, ok>>
Quit(e) ==
    /\ Chk(e.then, e.then \in {"done", "stopped", "MinimumLossScaleReachedError"})
    /\ e.then # "MinimumLossScaleReachedError" =>
       /\ Exp("checkpoints exported by the end", runs, pubs)
       /\ Exp("exports over by the end", Len(ok), Len(runs))
       /\ Chk("last export reported by the end", Settled)
    /\ UNCHANGED vars
Step ==
    LET e == Ev IN
    CASE e.op = "pub" -> Pub(e)
      [] e.op = "run" -> Run(e)
      [] e.op = "end" -> End(e)
      [] e.op = "hook" -> Hook(e)
      [] e.op = "quit" -> Quit(e)
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<vars, tid, l>>
=============================================================================
