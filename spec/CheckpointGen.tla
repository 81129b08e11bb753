---------------------------- MODULE CheckpointGen ----------------------------
(* Generates schedules for the asynchronous save: all sequences of Depth      *)
(* actions over saves, background progress per rank, polls, training and      *)
(* observation.  Each schedule is printed once and replayed into the real     *)
(* manager, and the recorded run is validated by CheckpointTrace.             *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS NR, Depth, NSteps

VARIABLES pend, work, hist
vars == <<pend, work, hist>>

Init == pend = 0 /\ work = [r \in 1..NR |-> 2] /\ hist = <<>>

Log(a) == hist' = Append(hist, a)
Busy == pend # 0

SaveAsync(s) == pend' = s /\ work' = [r \in 1..NR |-> 0] /\ Log([a |-> "asave", s |-> s])
SaveSync(s)  == pend' = 0 /\ work' = [r \in 1..NR |-> 2] /\ Log([a |-> "save", s |-> s])
\* Half of a rank's writing, or all that is left of it.
Part(r) == Busy /\ work[r] = 0 /\ work' = [work EXCEPT ![r] = 1] /\ Log([a |-> "part", s |-> r]) /\ UNCHANGED pend
Done(r) == Busy /\ work[r] < 2 /\ work' = [work EXCEPT ![r] = 2] /\ Log([a |-> "done", s |-> r]) /\ UNCHANGED pend
PollNb == /\ Log([a |-> "poll", s |-> 0])
          /\ pend' = IF Busy /\ \A r \in 1..NR : work[r] = 2 THEN 0 ELSE pend
          /\ UNCHANGED work
PollB  == /\ Log([a |-> "wait", s |-> 0]) /\ pend' = 0 /\ work' = [r \in 1..NR |-> 2]
Obs    == Busy /\ Log([a |-> "obs", s |-> 0]) /\ UNCHANGED <<pend, work>>

Next == /\ Len(hist) < Depth
        /\ \/ \E s \in 1..NSteps : SaveAsync(s) \/ SaveSync(s)
           \/ \E r \in 1..NR : Part(r) \/ Done(r)
           \/ PollNb \/ PollB \/ Obs
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
