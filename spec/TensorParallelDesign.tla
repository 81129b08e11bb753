-------------------------- MODULE TensorParallelDesign --------------------------
(* All ranks run the forward and the backward pass of a split layer step by step,  *)
(* each with its own slice, meeting in collectives.  Whatever the order in which   *)
(* they run, every rank ends with the output and the gradients of the whole layer. *)
EXTENDS TensorParallel, FiniteSets, TLC
CONSTANTS N, Kinds, Vals, In, Out, Batch
VARIABLES kind, x, w, b, g, at, val, slots
vars == <<kind, x, w, b, g, at, val, slots>>
Ranks == 1..N
Mats(r, c) == [1..r -> [1..c -> Vals]]
\* Program of a rank: the names of its steps; the collectives need every rank at the same place.
Programs == [
    colgather |-> <<"linear", "allgather", "dscatter", "dlinear", "dallreduce">>,
    collocal  |-> <<"linear", "dlinear", "dallreduce">>,
    rowscatter |-> <<"scatter", "linear", "allreduce", "dlinear", "dallgather">>,
    rowlocal  |-> <<"linear", "allreduce", "dlinear">>,
    chain     |-> <<"linear", "second", "allreduce", "dsecond", "dlinear", "dallreduce">>]
Collective == {"allgather", "allreduce", "dallreduce", "dallgather"}
Init ==
    /\ kind \in Kinds
    /\ x \in Mats(Batch, In) /\ w \in Mats(Out, In) /\ g \in Mats(Batch, Out)
    /\ b \in {<<>>} \cup [1..Out -> Vals]
    /\ (kind = "chain" => b = <<>> /\ In = Out)
    /\ at = [r \in Ranks |-> 1]
    /\ val = [r \in Ranks |-> [y |-> <<>>, h |-> <<>>, xin |-> <<>>, gy |-> <<>>, dx |-> <<>>, dw |-> <<>>, db |-> <<>>, dw2 |-> <<>>]]
    /\ slots = [r \in Ranks |-> <<>>]
Col2(r) == kind \in {"colgather", "collocal", "chain"}
W(r) == Slice(w, IF Col2(r) THEN 0 ELSE 1, N, r - 1)
\* The second layer of the chain uses the transposed matrix, cut by columns.
W2(r) == Slice(T(w), 1, N, r - 1)
B(r) == IF Col2(r) THEN Part(b, N, r - 1) ELSE <<>>
Xin(r) == IF kind = "rowlocal" THEN Slice(x, 1, N, r - 1) ELSE x
Gin(r) == IF kind = "collocal" THEN Slice(g, 1, N, r - 1) ELSE g
Step(r) == Programs[kind][at[r]]
Done(r) == at[r] > Len(Programs[kind])
Put(r, f, v) == val' = [val EXCEPT ![r] = [@ EXCEPT ![f] = v]]
Go(r) == at' = [at EXCEPT ![r] = @ + 1]
WithBias(y) == IF b = <<>> \/ Col2(1) THEN y ELSE [i \in 1..Len(y) |-> [j \in 1..Len(y[i]) |-> y[i][j] + b[j]]]
G(r) == IF val[r].gy = <<>> THEN Gin(r) ELSE val[r].gy
X(r) == IF val[r].xin = <<>> THEN Xin(r) ELSE val[r].xin
Local(r) ==
    /\ ~Done(r) /\ Step(r) \notin Collective
    /\ Go(r)
    /\ CASE Step(r) = "linear" -> IF kind = "chain" THEN Put(r, "h", Linear(X(r), W(r), <<>>)) ELSE Put(r, "y", Linear(X(r), W(r), B(r)))
         [] Step(r) = "second" -> Put(r, "y", Linear(val[r].h, W2(r), <<>>))
         [] Step(r) = "scatter" -> Put(r, "xin", Slice(x, 1, N, r - 1))
         [] Step(r) = "dscatter" -> Put(r, "gy", Slice(g, 1, N, r - 1))
         [] Step(r) = "dsecond" -> val' = [val EXCEPT ![r] = [@ EXCEPT !.gy = LinearDx(Gin(r), W2(r)), !.dw2 = LinearDw(Gin(r), val[r].h)]]
         [] Step(r) = "dlinear" ->
              val' = [val EXCEPT ![r] = [@ EXCEPT !.dx = LinearDx(G(r), W(r)), !.dw = LinearDw(G(r), X(r)), !.db = LinearDb(G(r))]]
    /\ UNCHANGED <<kind, x, w, b, g, slots>>
\* A rank brings its value to a collective and waits for the others.
Bring(r) ==
    /\ ~Done(r) /\ Step(r) \in Collective /\ slots[r] = <<>>
    /\ slots' = [slots EXCEPT ![r] = <<Step(r), at[r], IF Step(r) \in {"allgather", "allreduce"} THEN val[r].y ELSE val[r].dx>>]
    /\ UNCHANGED <<kind, x, w, b, g, at, val>>
Meet ==
    /\ \A r \in Ranks : slots[r] # <<>>
    /\ LET op == slots[1][1]
           all == [r \in Ranks |-> slots[r][3]]
           res == IF op \in {"allgather", "dallgather"} THEN Cat(all, 1) ELSE Sum(all)
           f == IF op \in {"allgather", "allreduce"} THEN "y" ELSE "dx"
           out == IF op = "allreduce" THEN WithBias(res) ELSE res IN
       /\ Assert(\A r \in Ranks : slots[r][1] = op /\ slots[r][2] = slots[1][2], "ranks meet in different collectives")
       /\ val' = [r \in Ranks |-> [val[r] EXCEPT ![f] = out]]
    /\ at' = [r \in Ranks |-> at[r] + 1]
    /\ slots' = [r \in Ranks |-> <<>>]
    /\ UNCHANGED <<kind, x, w, b, g>>
Next == (\E r \in Ranks : Local(r) \/ Bring(r)) \/ Meet
Spec == Init /\ [][Next]_vars
AllDone == \A r \in Ranks : Done(r)
NoDeadlock == AllDone \/ ENABLED Next
Whole == IF kind = "chain" THEN Linear(Linear(x, w, <<>>), T(w), <<>>) ELSE Linear(x, w, b)
Right ==
    \A r \in Ranks : Done(r) =>
        LET v == val[r] IN
        CASE kind = "colgather" ->
               v.y = Whole /\ v.dx = LinearDx(g, w) /\ v.dw = Slice(LinearDw(g, x), 0, N, r - 1) /\ v.db = Part(LinearDb(g), N, r - 1)
          [] kind = "collocal" ->
               v.y = Slice(Whole, 1, N, r - 1) /\ v.dx = LinearDx(g, w) /\ v.dw = Slice(LinearDw(g, x), 0, N, r - 1) /\ v.db = Part(LinearDb(g), N, r - 1)
          [] kind = "rowscatter" ->
               v.y = Whole /\ v.dx = LinearDx(g, w) /\ v.dw = Slice(LinearDw(g, x), 1, N, r - 1) /\ v.db = LinearDb(g)
          [] kind = "rowlocal" ->
               v.y = Whole /\ v.dx = Slice(LinearDx(g, w), 1, N, r - 1) /\ v.dw = Slice(LinearDw(g, x), 1, N, r - 1) /\ v.db = LinearDb(g)
          [] kind = "chain" ->
               LET h == Linear(x, w, <<>>) gh == LinearDx(g, T(w)) IN
               v.y = Whole /\ v.dx = LinearDx(gh, w) /\ v.dw = Slice(LinearDw(gh, x), 0, N, r - 1) /\ v.dw2 = Slice(LinearDw(g, h), 1, N, r - 1)
=============================================================================
