---------------------------- MODULE ProcessorsTrace ----------------------------
(* Calls of real step processors: e.seqs, what became forbidden per row, and    *)
(* whether anything else changed.                                              *)
EXTENDS Processors, Batch
Vals(q) == {q[i] : i \in 1..Len(q)}
Step ==
    LET e == Ev IN
    /\ Chk("a score of a token that is not forbidden changed", ~e.touched)
    /\ \A i \in 1..Len(e.seqs) :
         Exp("forbidden after " \o ToString(e.seqs[i]) \o " by " \o ToJson(Cfg.p), Vals(e.banned[i]), Bans(e.seqs[i], Cfg.p, Cfg.V))
Init == BatchInit
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
