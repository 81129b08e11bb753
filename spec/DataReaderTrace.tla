--------------------------- MODULE DataReaderTrace ---------------------------
EXTENDS DataReader, Batch
VARIABLES y, marks
vars == <<tid, l, y, marks>>
P == Cfg.p
Step ==
    LET e == Ev IN
    CASE e.a = "read" ->
           /\ \A r \in 1..P.n : Exp("batches of rank " \o ToString(r - 1), e.got[r], Got(P, y, r))
           /\ y' = Read(P, y) /\ UNCHANGED marks
      [] e.a = "reset" -> Exp("outcome of reset", e.res, "ok") /\ y' = Reset(P, y) /\ UNCHANGED marks
      [] e.a = "save" -> /\ Exp("outcome of saving", e.res, "ok")
                         /\ Exp("strictness of the saved state", e.strict, Cfg.strict)
                         /\ marks' = Append(marks, Mark(P, y)) /\ UNCHANGED y
      [] e.a = "load" -> Exp("outcome of restoring", e.res, "ok") /\ y' = Restore(P, y, marks[e.i]) /\ UNCHANGED marks
      \* The source of rank r fails within its next group.
      [] e.a = "fail" -> Exp("report of a failing source", e.got, "DataReadError") /\ UNCHANGED <<y, marks>>
      [] e.a = "about" -> Exp("accumulation size", e.k, P.k) /\ UNCHANGED <<y, marks>>
      [] OTHER -> Rej("every rank finishes: " \o e.what) /\ FALSE /\ UNCHANGED <<y, marks>>
Init == BatchInit /\ y = InitY(Traces[tid].cfg.p) /\ marks = <<>>
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
