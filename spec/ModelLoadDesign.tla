-------------------------- MODULE ModelLoadDesign --------------------------
EXTENDS ModelLoad
CONSTANTS Dp, Tp
VARIABLES o, pc, c
vars == <<o, pc, c>>
Ranks == 0..(Dp * Tp - 1)
DpOf(r) == r \div Tp
Leader(r) == r % Tp
Peers(r) == {x \in Ranks : x % Tp = r % Tp}
Opts == {x \in [op : {"new", "load"}, meta : BOOLEAN, first : BOOLEAN, sm : BOOLEAN] : (x.op = "load" => ~x.meta) /\ (x.meta => x.sm)}
P(r) == Prog(o, DpOf(r))
Init == o \in Opts /\ pc = [r \in Ranks |-> 1] /\ c = [r \in Ranks |-> All(EMPTY)]
More(r) == pc[r] <= Len(P(r))
I(r) == P(r)[pc[r]]
Alone(r) == /\ More(r) /\ I(r) \notin {"barrier", "sync"}
            /\ c' = [c EXCEPT ![r] = Do(I(r), @, r)] /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<o>>
\* A collective happens when all are there; each has to be in the same.
Barrier == /\ \A r \in Ranks : More(r) /\ I(r) = "barrier"
           /\ pc' = [r \in Ranks |-> pc[r] + 1] /\ UNCHANGED <<o, c>>
Sync(r) == /\ DpOf(r) = 0 /\ \A x \in Peers(r) : More(x) /\ I(x) = "sync"
           /\ LET src == Ready(c[r], r) IN
              c' = [x \in Ranks |-> IF x \in Peers(r) THEN [Ready(c[x], x) EXCEPT !.p = src.p, !.b = src.b] ELSE c[x]]
           /\ pc' = [x \in Ranks |-> IF x \in Peers(r) THEN pc[x] + 1 ELSE pc[x]] /\ UNCHANGED <<o>>
Done == \A r \in Ranks : ~More(r)
Next == (\E r \in Ranks : Alone(r) \/ Sync(r)) \/ Barrier \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* With deadlock checking on: all ranks finish.
Right == Done => \A r \in Ranks : c[r] = Goal(o, r, DpOf(r), Leader(r))
Same == Done /\ ~o.first /\ (o.op = "load" \/ o.sm) => \A r, x \in Ranks : x \in Peers(r) => c[r].p = c[x].p /\ c[r].b = c[x].b
NoHole == Done => \A r \in Ranks : c[r].p # EMPTY /\ c[r].b # EMPTY /\ c[r].n # EMPTY
============================================================================
