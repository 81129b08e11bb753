---------------------------- MODULE ValidationDesign ----------------------------
(* Ranks validate unit by unit between training steps: each reads its own data and   *)
(* adds to its own bag, all meet to publish a unit, streams of random numbers and    *)
(* data positions are put back.  Runs may break anywhere.                            *)
EXTENDS Validation, FiniteSets, TLC, Json
CONSTANTS NR, Lens, Depth, Emitting
\* Lens: reads of each rank in each unit, as a set of functions picked from.
VARIABLES lens, hist, pc, unit, pos, bag, seen, stream, mark, used, pubs, trained
vars == <<lens, hist, pc, unit, pos, bag, seen, stream, mark, used, pubs, trained>>
Ranks == 1..NR
NU == Len(lens)
Init ==
    /\ lens \in UNION {[1..k -> [Ranks -> Lens]] : k \in 1..2}
    /\ hist = <<>> /\ pc = [r \in Ranks |-> "train"] /\ unit = [r \in Ranks |-> 0]
    /\ pos = [u \in 1..NU |-> [r \in Ranks |-> 0]]
    /\ bag = [r \in Ranks |-> 0]
    /\ seen = [u \in 1..NU |-> [r \in Ranks |-> <<>>]]
    /\ stream = [r \in Ranks |-> <<"train", 0>>]
    /\ mark = [r \in Ranks |-> <<"train", 0>>]
    /\ used = FALSE /\ pubs = <<>> /\ trained = 0
Idle == \A r \in Ranks : pc[r] = "train"
Log(x) == Len(hist) < Depth /\ hist' = Append(hist, x)
Train ==
    /\ Idle /\ Log("train")
    /\ stream' = [r \in Ranks |-> <<"train", stream[r][2] + 1>>]
    /\ trained' = trained + 1
    /\ UNCHANGED <<lens, pc, unit, pos, bag, seen, mark, used, pubs>>
Run ==
    /\ Idle /\ ~used /\ Log("run")
    /\ used' = TRUE /\ pubs' = <<>>
    /\ pc' = [r \in Ranks |-> "read"] /\ unit' = [r \in Ranks |-> 1]
    /\ mark' = stream /\ stream' = [r \in Ranks |-> <<"seed", 0>>]
    /\ bag' = [r \in Ranks |-> 0]
    /\ seen' = [u \in 1..NU |-> [r \in Ranks |-> <<>>]]
    /\ UNCHANGED <<lens, pos, trained>>
\* A second run without a reset is refused.
Again == Idle /\ used /\ Log("run") /\ UNCHANGED <<lens, pc, unit, pos, bag, seen, stream, mark, used, pubs, trained>>
Reset ==
    /\ Idle /\ Log("reset") /\ used' = FALSE
    /\ pos' = [u \in 1..NU |-> [r \in Ranks |-> 0]]
    /\ UNCHANGED <<lens, pc, unit, bag, seen, stream, mark, pubs, trained>>
Read(r) ==
    LET u == unit[r] IN
    /\ pc[r] = "read"
    /\ IF pos[u][r] < lens[u][r] THEN
         /\ pos' = [pos EXCEPT ![u] = [@ EXCEPT ![r] = @ + 1]]
         /\ bag' = [bag EXCEPT ![r] = @ + pos'[u][r]]
         /\ seen' = [seen EXCEPT ![u] = [@ EXCEPT ![r] = Append(@, <<pos'[u][r], stream[r]>>)]]
         /\ stream' = [stream EXCEPT ![r] = <<@[1], @[2] + 1>>]
         /\ UNCHANGED pc
       ELSE
         /\ pos' = [pos EXCEPT ![u] = [@ EXCEPT ![r] = 0]]
         /\ pc' = [pc EXCEPT ![r] = "sync"]
         /\ UNCHANGED <<bag, seen, stream>>
    /\ UNCHANGED <<lens, hist, unit, mark, used, pubs, trained>>
Publish ==
    /\ \A r \in Ranks : pc[r] = "sync"
    /\ pubs' = Append(pubs, SumOf([r \in Ranks |-> bag[r]]))
    /\ IF unit[1] < NU THEN
         /\ unit' = [r \in Ranks |-> unit[r] + 1] /\ pc' = [r \in Ranks |-> "read"]
         /\ bag' = [r \in Ranks |-> 0] /\ UNCHANGED stream
       ELSE /\ pc' = [r \in Ranks |-> "train"] /\ stream' = mark /\ UNCHANGED <<unit, bag>>
    /\ UNCHANGED <<lens, hist, pos, seen, mark, used, trained>>
\* A unit fails on all ranks.
Break ==
    /\ \E r \in Ranks : pc[r] = "read" /\ Len(seen[unit[r]][r]) > 0
    /\ hist # <<>> /\ hist[Len(hist)] = "run"
    /\ hist' = [hist EXCEPT ![Len(hist)] = "broken"]
    /\ pc' = [r \in Ranks |-> "train"] /\ stream' = mark
    /\ UNCHANGED <<lens, unit, pos, bag, seen, mark, used, pubs, trained>>
Next == Train \/ Run \/ Again \/ Reset \/ (\E r \in Ranks : Read(r)) \/ Publish \/ Break
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Tri(n) == (n * (n + 1)) \div 2
\* After a run: every batch once, in order, drawn from the seed's stream; sums of all ranks; streams as before.
Finished == Idle /\ hist # <<>> /\ hist[Len(hist)] = "run" /\ Len(pubs) = NU
EveryBatchOnce == Finished => \A u \in 1..NU, r \in Ranks : [i \in 1..Len(seen[u][r]) |-> seen[u][r][i][1]] = [i \in 1..lens[u][r] |-> i]
SameDraws == Finished => \A u \in 1..NU, r \in Ranks : \A i \in 1..Len(seen[u][r]) :
    seen[u][r][i][2] = <<"seed", SumOf([k \in 1..(u - 1) |-> lens[k][r]]) + i - 1>>
Published == Finished => \A u \in 1..NU : pubs[u] = SumOf([r \in Ranks |-> Tri(lens[u][r])])
Undisturbed == Idle => \A r \in Ranks : stream[r] = <<"train", trained>>
FreshData == (Idle /\ ~used) => \A u \in 1..NU, r \in Ranks : pos[u][r] = 0
Emit == (Emitting /\ Idle /\ Len(hist) = Depth) => PrintT("GEN|" \o ToJson(hist))
=============================================================================
