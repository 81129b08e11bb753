----------------------------- MODULE ReshardDesign -----------------------------
(* A parameter goes through layout after layout, saved under one and loaded under *)
(* the next.  Whatever the way, every rank holds what it would hold had the whole *)
(* parameter been cut for it directly, and the slices add up to the whole.        *)
EXTENDS Reshard, TLC, Json
CONSTANTS MaxDim, Sizes, MaxMoves, Emitting
VARIABLES par, tp, dp, held, way
vars == <<par, tp, dp, held, way>>
Whole == Full(par.rows, par.cols, 0)
Fits(p, n) == p.dim = WHOLE \/ (IF p.dim = 0 THEN p.rows ELSE p.cols) % n = 0
Init ==
    /\ par \in [rows : 1..MaxDim, cols : 1..MaxDim, dim : {0, 1, WHOLE}]
    /\ tp = 1 /\ dp = 1
    /\ held = <<<<Full(par.rows, par.cols, 0)>>>>
    /\ way = <<>>
\* All ranks save what they hold and a gang of another shape loads it.
Move(t, s) ==
    /\ Len(way) < MaxMoves
    /\ Fits(par, t)
    /\ LET got(r) == IF t = tp THEN Copied(held, r) ELSE Moved(held, par.dim, t, r) IN
       held' = [r \in 1..t |-> [x \in 1..s |-> Chunk(got(r - 1), s, x - 1)]]
    /\ tp' = t /\ dp' = s
    /\ way' = Append(way, <<t, s>>)
    /\ UNCHANGED par
Next == \E t \in Sizes, s \in Sizes : Move(t, s)
Spec == Init /\ [][Next]_vars
Right == \A r \in 1..tp, x \in 1..dp : held[r][x] = Held(Whole, par.dim, tp, dp, r - 1, x - 1)
AddsUp ==
    LET u == Unsharded(held) IN
    IF par.dim = WHOLE THEN \A r \in 1..tp : u[r] = Whole ELSE Cat(u, par.dim) = Whole
Emit == (Emitting /\ Len(way) = MaxMoves) => PrintT("GEN|" \o ToJson([par |-> par, way |-> way]))
View == <<par, tp, dp, held, Len(way)>>
=============================================================================
