--------------------------- MODULE ModelLoadTrace ---------------------------
EXTENDS ModelLoad, Batch
vars == <<tid, l>>
Step ==
    LET e == Ev IN
    IF e.bad # "" THEN
        /\ Exp("how a load of what is not a checkpoint of the model ends", e.err, e.bad)
    ELSE
    /\ Exp("errors on the ranks", e.errs, [i \in 1..Len(e.errs) |-> ""])
    /\ \A i \in 1..Len(e.ranks) :
         LET r == e.ranks[i] g == Goal(e.o, r.rank, r.dp, r.rank % e.tp) IN
         /\ \A j \in 1..Len(r.slots) :
              Exp("what `" \o r.slots[j].n \o "` holds on rank " \o ToString(r.rank) \o " after " \o ToJson(e.o), r.slots[j].c,
                  IF r.slots[j].k = "p" THEN g.p ELSE IF r.slots[j].k = "b" THEN g.b ELSE g.n)
         /\ Exp("whether the tied parameters are one on rank " \o ToString(r.rank), r.tied, TRUE)
         /\ Exp("data types on rank " \o ToString(r.rank), r.dtypes, <<e.dtype>>)
Init == BatchInit
Next == BatchMore /\ Step /\ BatchStep
Spec == Init /\ [][Next]_vars
============================================================================
