------------------------- MODULE ParamGroupsTrace -------------------------
EXTENDS ParamGroups, Batch
vars == <<tid, l>>
Step ==
    LET e == Ev want == Made(e.groups, e.names, e.top) IN
    /\ Exp("errors", e.err, "")
    /\ Exp("parameters of the groups " \o ToJson([i \in 1..Len(e.groups) |-> e.groups[i].pats]), [i \in 1..Len(e.got) |-> e.got[i].names],
           [i \in 1..Len(want) |-> want[i].names])
    /\ Exp("settings of the groups", [i \in 1..Len(e.got) |-> e.got[i].set], [i \in 1..Len(want) |-> want[i].set])
    \* A parameter moves as its settings say, unless it is frozen.
    /\ \A k \in 1..Len(e.names) :
          Exp("how the parameter " \o ToJson(e.names[k]) \o " moved",
              e.moved[k], IF e.frozen[k] THEN "0" ELSE LET i == CHOOSE i \in 1..Len(want) : \E j \in 1..Len(want[i].names) : want[i].names[j] = e.names[k] IN want[i].set.lr)
Init == BatchInit
Next == BatchMore /\ Step /\ BatchStep
Spec == Init /\ [][Next]_vars
============================================================================
