------------------------------ MODULE ExportDesign ------------------------------
(* Exports of checkpoints by all ranks: calls of the exporter made in the same      *)
(* order by every rank, a background job per rank of which only the first rank's    *)
(* runs a process, and completion reported through collectives.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NR, Depth, Emitting
VARIABLES plan, at, todo, fut, job, procs, out, cbs, res, dead
vars == <<plan, at, todo, fut, job, procs, out, cbs, res, dead>>
Ranks == 1..NR
Calls == {"xa", "xb", "pn", "pb"}   \* exports (in the background, waited for), polls (once, waited for)
Exports(p) == {i \in 1..Len(p) : p[i] \in {"xa", "xb"}}
\* A call as small steps of a rank.
Finish == <<"await", "barrier", "commit">>
Body(r, c) ==
    LET before == IF fut[r] # 0 THEN Finish ELSE <<>> IN
    CASE c = "xa" -> before \o <<"queue">>
      [] c = "xb" -> before \o <<"inline", "commit">>
      [] c = "pn" -> IF fut[r] = 0 THEN <<>> ELSE <<"peek">>
      [] c = "pb" -> before
Collective == {"barrier", "commit", "peek"}
Init ==
    /\ plan \in [1..Depth -> Calls]
    /\ at = [r \in Ranks |-> 0]
    /\ todo = [r \in Ranks |-> <<>>]
    /\ fut = [r \in Ranks |-> 0]
    /\ job = [r \in Ranks |-> [i \in 1..Depth |-> "no"]]
    /\ procs = {} /\ out = [i \in 1..Depth |-> "none"]
    /\ cbs = [i \in 1..Depth |-> [r \in Ranks |-> 0]]
    /\ res = [r \in Ranks |-> <<>>]
    /\ dead = FALSE
Started(r) == at[r] > Len(res[r])
\* A rank starts its next call.
Call(r) ==
    /\ ~Started(r) /\ at[r] < Depth
    /\ at' = [at EXCEPT ![r] = @ + 1]
    /\ todo' = [todo EXCEPT ![r] = Body(r, plan[at[r] + 1])]
    /\ UNCHANGED <<plan, fut, job, procs, out, cbs, res, dead>>
Ret(r, v) == res' = [res EXCEPT ![r] = Append(@, v)]
\* It returns when nothing is left to do.
Done(r) ==
    /\ Started(r) /\ todo[r] = <<>>
    /\ Ret(r, CASE plan[at[r]] \in {"xa", "xb"} -> "none"
                [] fut[r] = 0 -> "none"
                [] OTHER -> "false")
    /\ UNCHANGED <<plan, at, todo, fut, job, procs, out, cbs, dead>>
Step(r) == Head(todo[r])
Ready(r) == Started(r) /\ todo[r] # <<>>
Pop(r) == todo' = [todo EXCEPT ![r] = Tail(@)]
Await(r) ==
    /\ Ready(r) /\ Step(r) = "await" /\ job[r][fut[r]] = "done"
    /\ Pop(r) /\ UNCHANGED <<plan, at, fut, job, procs, out, cbs, res, dead>>
Queue(r) ==
    /\ Ready(r) /\ Step(r) = "queue"
    /\ job' = [job EXCEPT ![r] = [@ EXCEPT ![at[r]] = "queued"]]
    /\ fut' = [fut EXCEPT ![r] = at[r]]
    /\ Pop(r) /\ UNCHANGED <<plan, at, procs, out, cbs, res, dead>>
\* The job of the first rank is the process; those of the others have nothing to do.
Start(i) ==
    /\ \/ job[1][i] = "queued" /\ job' = [job EXCEPT ![1] = [@ EXCEPT ![i] = "running"]] /\ UNCHANGED todo
       \/ Ready(1) /\ Step(1) = "inline" /\ at[1] = i /\ todo' = [todo EXCEPT ![1] = <<"waiting">> \o Tail(@)] /\ UNCHANGED job
    /\ procs' = procs \cup {i}
    /\ UNCHANGED <<plan, at, fut, out, cbs, res, dead>>
End(i, how) ==
    /\ i \in procs /\ procs' = procs \ {i}
    /\ out' = [out EXCEPT ![i] = how]
    /\ IF job[1][i] = "running" THEN job' = [job EXCEPT ![1] = [@ EXCEPT ![i] = "done"]] /\ UNCHANGED todo
       ELSE todo' = [todo EXCEPT ![1] = Tail(@)] /\ UNCHANGED job
    /\ UNCHANGED <<plan, at, fut, cbs, res, dead>>
Idle(r) ==
    /\ r # 1
    /\ \/ \E i \in 1..Depth : job[r][i] = "queued" /\ job' = [job EXCEPT ![r] = [@ EXCEPT ![i] = "done"]] /\ UNCHANGED todo
       \/ Ready(r) /\ Step(r) = "inline" /\ Pop(r) /\ UNCHANGED job
    /\ UNCHANGED <<plan, at, fut, procs, out, cbs, res, dead>>
\* All ranks at one collective.
Of(r) == IF fut[r] # 0 THEN fut[r] ELSE at[r]
Meet ==
    /\ \A r \in Ranks : Ready(r) /\ Step(r) \in Collective
    /\ dead' = (dead \/ Cardinality({<<Step(r), at[r]>> : r \in Ranks}) # 1)
    /\ CASE Step(1) = "barrier" ->
              /\ todo' = [r \in Ranks |-> Tail(todo[r])]
              /\ UNCHANGED <<fut, cbs>>
         [] Step(1) = "peek" ->
              \* The first rank tells whether its job is done.
              /\ todo' = [r \in Ranks |-> IF job[1][fut[1]] = "done" THEN <<"await", "commit">> ELSE <<>>]
              /\ UNCHANGED <<fut, cbs>>
         [] Step(1) = "commit" ->
              \* The first rank tells whether its process succeeded.
              /\ cbs' = [i \in 1..Depth |-> [r \in Ranks |-> IF i = Of(r) /\ out[Of(1)] = "ok" THEN cbs[i][r] + 1 ELSE cbs[i][r]]]
              /\ fut' = [r \in Ranks |-> 0]
              /\ todo' = [r \in Ranks |-> Tail(todo[r])]
    /\ res' = IF Step(1) = "commit" THEN [r \in Ranks |-> IF plan[at[r]] \in {"pn", "pb"} THEN Append(res[r], "true") ELSE res[r]] ELSE res
    /\ UNCHANGED <<plan, at, job, procs, out>>
Next ==
    \/ \E r \in Ranks : Call(r) \/ Done(r) \/ Await(r) \/ Queue(r) \/ Idle(r)
    \/ \E i \in 1..Depth : Start(i) \/ End(i, "ok") \/ End(i, "bad")
    \/ Meet
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
OneProcess == Cardinality(procs) <= 1
OwnProcess == \A i \in 1..Depth : (i \in procs \/ out[i] # "none") => i \in Exports(plan)
\* An export starts when the one before it has been reported.
InOrder == \A i \in procs : \A j \in Exports(plan) :
    j < i => (out[j] # "none" /\ \A r \in Ranks : cbs[j][r] = (IF out[j] = "ok" THEN 1 ELSE 0))
Callbacks == \A i \in 1..Depth, r \in Ranks : cbs[i][r] <= (IF out[i] = "ok" THEN 1 ELSE 0)
SameCall == \A i \in 1..Depth : Cardinality({cbs[i][r] : r \in Ranks}) = 1
SameResult == \A r, q \in Ranks : \A k \in 1..Depth : (k <= Len(res[r]) /\ k <= Len(res[q])) => res[r][k] = res[q][k]
Aligned == ~dead
Over == \A r \in Ranks : Len(res[r]) = Depth
AtEnd == Over => \A i \in Exports(plan), r \in Ranks :
    fut[r] = i \/ (out[i] # "none" /\ cbs[i][r] = (IF out[i] = "ok" THEN 1 ELSE 0))
NoDeadlock == (~ENABLED Next) => Over
Emit == (Emitting /\ \A r \in Ranks : at[r] = 0) => PrintT("GEN|" \o ToJson(plan))
=============================================================================
