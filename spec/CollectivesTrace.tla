-------------------------- MODULE CollectivesTrace --------------------------
EXTENDS Collectives, Batch
VARIABLE done
vars == <<tid, l, done>>

Step ==
    LET e == Ev IN
    IF e.kind = "member"
    THEN \* Who got a handle, with which rank and size.
         \A p \in 1..Len(e.who) :
            LET I == {i \in 1..Len(e.gang) : e.gang[i] = p - 1} IN
            Exp("membership of process " \o ToString(p - 1), e.who[p],
                IF I = {} THEN <<>> ELSE <<(CHOOSE i \in I : TRUE) - 1, Len(e.gang)>>)
    ELSE IF e.kind = "refuse"
    THEN \A i \in 1..Len(e.res) : Exp("refused", e.res[i], "ValueError")
    ELSE IF ~ValidSource(e)
    THEN \A i \in 1..Len(e.res) : Exp("source rank out of range refused", e.res[i], "ValueError")
    ELSE IF Refusable(e.kind, e.op) /\ \A i \in 1..Len(e.res) : e.res[i] = "unsupported" THEN TRUE
    ELSE LET R == Result(e) IN
         \A i \in 1..Len(e.res) :
           /\ Exp("success at rank " \o ToString(i - 1), e.res[i], "ok")
           /\ IF e.res[i] = "ok" THEN Exp("result at rank " \o ToString(i - 1), e.outs[i], R[i]) ELSE TRUE

Init == BatchInit /\ done = 0
Next == BatchMore /\ BatchStep /\ Step /\ done' = done + 1
Spec == Init /\ [][Next]_vars
=============================================================================
