-------------------------- MODULE MetricSyncDesign --------------------------
(* However the updates are dealt to the ranks, and in whatever order, merging  *)
(* the ranks' metrics gives the metric of all updates.                         *)
EXTENDS MetricBag
CONSTANTS Ranks, Vals, Depth
VARIABLES own, whole, n
vars == <<own, whole, n>>
Init == own = [r \in Ranks |-> EmptyM("mean")] /\ whole = EmptyM("mean") /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E r \in Ranks, v \in Vals, w \in {1, 2} :
          own' = [own EXCEPT ![r] = Put(@, v, w)] /\ whole' = Put(whole, v, w)
Spec == Init /\ [][Next]_vars
RECURSIVE Fold(_, _)
Fold(S, acc) == IF S = {} THEN acc ELSE LET r == CHOOSE r \in S : TRUE IN Fold(S \ {r}, Merge(acc, own[r]))
Agrees == Fold(Ranks, EmptyM("mean")) = whole
Commutes == \A a, b \in Ranks : Merge(own[a], own[b]) = Merge(own[b], own[a])
=============================================================================
