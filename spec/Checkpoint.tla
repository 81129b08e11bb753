------------------------------ MODULE Checkpoint ------------------------------
(* The save protocol over ranks, files and barriers.  One action per critical *)
(* section of the implementation; a crash of the whole job may strike between *)
(* any two of them, and tears the file being written.                         *)
EXTENDS CheckpointStore

CONSTANTS NRanks,        \* ranks of the job
          MaxStep,       \* step numbers 1..MaxStep
          MaxVer,        \* bound on training progress
          MaxCrash,      \* bound on crashes
          AtomicDelete   \* TRUE: a listed checkpoint is unlisted before its files go

Ranks == 0..(NRanks - 1)
Steps == 1..MaxStep
None == <<>>
Absent == -1
Torn == -2

VARIABLES
    final,   \* step -> None or (rank -> file content: version, Absent, Torn)
    tmp,     \* step -> None or (rank -> file content)
    kindOf,  \* step -> "full" or "model": kind of the listed checkpoint
    live,    \* version of the training state, advances while a save is in flight
    op,      \* what the job is doing: "run", "begin", "save", "delete", "crashed"
    cur,     \* step the operation is about
    blocking,
    pc,      \* rank -> "idle", "recorded", "writing", "wrote"
    snap,    \* rank -> version captured
    crashes

vars == <<final, tmp, kindOf, live, op, cur, blocking, pc, snap, crashes>>

NoFiles == [r \in Ranks |-> Absent]

Init ==
    /\ final = [s \in Steps |-> None]
    /\ tmp = [s \in Steps |-> None]
    /\ kindOf = [s \in Steps |-> "full"]
    /\ live = 1 /\ op = "run" /\ cur = 0 /\ blocking = FALSE
    /\ pc = [r \in Ranks |-> "idle"] /\ snap = [r \in Ranks |-> 0]
    /\ crashes = 0

InFlight == \E r \in Ranks : pc[r] # "idle"

\* Training goes on while an asynchronous save is writing.
Train ==
    /\ op = "run" /\ live < MaxVer
    /\ live' = live + 1
    /\ UNCHANGED <<final, tmp, kindOf, op, cur, blocking, pc, snap, crashes>>

\* A new save first completes the one in flight (guard), then clears the step.
SaveBegin(s, b) ==
    /\ op = "run" /\ ~InFlight
    /\ op' = "begin" /\ cur' = s /\ blocking' = b
    /\ tmp' = [tmp EXCEPT ![s] = None]
    /\ UNCHANGED <<final, kindOf, live, pc, snap, crashes>>

\* Unlisting the previous checkpoint of the same step, then removing its files.
SaveUnlist ==
    /\ op \in {"begin", "delete"} /\ final[cur] # None
    /\ IF AtomicDelete
       THEN final' = [final EXCEPT ![cur] = None] /\ tmp' = [tmp EXCEPT ![cur] = final[cur]]
       ELSE /\ \E r \in Ranks :
                 /\ final[cur][r] # Absent
                 /\ final' = [final EXCEPT ![cur] =
                        IF \A q \in Ranks \ {r} : @[q] = Absent THEN None
                        ELSE [@ EXCEPT ![r] = Absent]]
            /\ UNCHANGED tmp
    /\ UNCHANGED <<kindOf, live, op, cur, blocking, pc, snap, crashes>>

DeleteFiles ==
    /\ op = "delete" /\ final[cur] = None
    /\ tmp' = [tmp EXCEPT ![cur] = None]
    /\ op' = "run" /\ cur' = 0
    /\ UNCHANGED <<final, kindOf, live, blocking, pc, snap, crashes>>

SaveMkdir ==
    /\ op = "begin" /\ final[cur] = None
    /\ tmp' = [tmp EXCEPT ![cur] = NoFiles]
    /\ op' = "record"
    /\ UNCHANGED <<final, kindOf, live, cur, blocking, pc, snap, crashes>>

\* Every rank captures its state; training is held until all did.
Record(r) ==
    /\ op = "record" /\ pc[r] = "idle"
    /\ pc' = [pc EXCEPT ![r] = "recorded"]
    /\ snap' = [snap EXCEPT ![r] = live]
    /\ UNCHANGED <<final, tmp, kindOf, live, op, cur, blocking, crashes>>

Recorded ==
    /\ op = "record" /\ \A r \in Ranks : pc[r] = "recorded"
    /\ op' = IF blocking THEN "blocked" ELSE "run"
    /\ UNCHANGED <<final, tmp, kindOf, live, cur, blocking, pc, snap, crashes>>

WriteStart(r) ==
    /\ op \in {"run", "blocked"} /\ pc[r] = "recorded"
    /\ pc' = [pc EXCEPT ![r] = "writing"]
    /\ tmp' = [tmp EXCEPT ![cur][r] = Torn]
    /\ UNCHANGED <<final, kindOf, live, op, cur, blocking, snap, crashes>>

WriteEnd(r) ==
    /\ op \in {"run", "blocked"} /\ pc[r] = "writing"
    /\ pc' = [pc EXCEPT ![r] = "wrote"]
    /\ tmp' = [tmp EXCEPT ![cur][r] = snap[r]]
    /\ UNCHANGED <<final, kindOf, live, op, cur, blocking, snap, crashes>>

\* Barrier, then one rename by rank 0.
Commit ==
    /\ op \in {"run", "blocked"} /\ InFlight /\ \A r \in Ranks : pc[r] = "wrote"
    /\ final' = [final EXCEPT ![cur] = tmp[cur]]
    /\ tmp' = [tmp EXCEPT ![cur] = None]
    /\ kindOf' = [kindOf EXCEPT ![cur] = "full"]
    /\ pc' = [r \in Ranks |-> "idle"]
    /\ op' = "run" /\ cur' = 0 /\ blocking' = FALSE
    /\ UNCHANGED <<live, snap, crashes>>

DeleteBegin(s) ==
    /\ op = "run" /\ ~InFlight /\ final[s] # None
    /\ op' = "delete" /\ cur' = s
    /\ tmp' = [tmp EXCEPT ![s] = None]
    /\ UNCHANGED <<final, kindOf, live, blocking, pc, snap, crashes>>

\* Keeping the model only: one step unlists the rest.
KeepModel(s) ==
    /\ op = "run" /\ ~InFlight /\ final[s] # None /\ kindOf[s] = "full"
    /\ kindOf' = [kindOf EXCEPT ![s] = "model"]
    /\ UNCHANGED <<final, tmp, live, op, cur, blocking, pc, snap, crashes>>

Crash ==
    /\ op # "crashed" /\ crashes < MaxCrash
    /\ crashes' = crashes + 1
    /\ op' = "crashed" /\ cur' = 0 /\ blocking' = FALSE
    /\ pc' = [r \in Ranks |-> "idle"]
    /\ UNCHANGED <<final, tmp, kindOf, live, snap>>

Restart ==
    /\ op = "crashed" /\ op' = "run"
    /\ live' \in {1} \cup {final[s][0] : s \in {x \in Steps : final[x] # None}}
    /\ UNCHANGED <<final, tmp, kindOf, cur, blocking, pc, snap, crashes>>

Next ==
    \/ Train
    \/ \E s \in Steps, b \in BOOLEAN : SaveBegin(s, b)
    \/ SaveUnlist \/ DeleteFiles \/ SaveMkdir
    \/ \E r \in Ranks : Record(r) \/ WriteStart(r) \/ WriteEnd(r)
    \/ Recorded \/ Commit
    \/ \E s \in Steps : DeleteBegin(s) \/ KeepModel(s)
    \/ Crash \/ Restart

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Every listed checkpoint is whole: all ranks, one version, no torn file.
Whole(f) == /\ \A r \in Ranks : f[r] \notin {Absent, Torn}
            /\ \A r, q \in Ranks : f[r] = f[q]
ListedComplete == \A s \in Steps : final[s] # None => Whole(final[s])

\* At most one save is in flight, and it never touches a listed directory.
OneSave == InFlight => cur \in Steps /\ final[cur] = None

\* Nothing but an operation on that very step changes or removes a checkpoint.
OthersUntouched ==
    [][\A s \in Steps : final[s] # None /\ final'[s] # final[s] => cur = s \/ cur' = s]_vars

\* Refinement of the abstract store.
AbsPend ==
    IF InFlight /\ \A r \in Ranks : pc[r] # "idle"
    THEN <<[s |-> cur, v |-> snap[0], kind |-> "full"]>> ELSE <<>>
AbsStore ==
    LET L == {s \in Steps : final[s] # None}
    IN  [s \in L |-> [v |-> final[s][0], kind |-> kindOf[s]]]
AbsSt == [store |-> AbsStore, pend |-> AbsPend, scores |-> Empty]

AbsNext(a, b) ==
    \/ b = a
    \/ \E s \in Steps : b = DropStore(a, s) \/ b = Shrink(a, s)
    \/ \E s \in Steps, v \in 1..MaxVer : b = Start(a, s, v, "full")
    \/ b = Publish(a)
    \/ b = Lose(a)
Refines == [][AbsNext(AbsSt, AbsSt')]_vars
=============================================================================
