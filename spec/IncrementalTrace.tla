--------------------------- MODULE IncrementalTrace ---------------------------
(* Incremental decoding by the real code.                                       *)
(* Key/value states (c.kind "state"): what each row holds after each operation. *)
(* Models (c.kind "model"): which histories explain the outputs of each row, by *)
(* comparison with the outputs of the whole history at once.                    *)
EXTENDS Attention, Batch
VARIABLES hist, nr
Rows == 1..Len(hist)
Pick(q, o) == [i \in 1..Len(o) |-> q[o[i] + 1]]
\* State: holds the latest, at least w of them (or all there are).
Holds(got, h, w) ==
    /\ Exp("rows of the state", Len(got.k), Len(h))
    /\ \A i \in 1..Len(h) :
        /\ Chk("row " \o ToString(i) \o ": got keys " \o ToJson(got.k[i]) \o ", specification says at least the last " \o ToString(w) \o " of " \o ToJson(h[i]),
               IsSuffix(got.k[i], h[i]) /\ Len(got.k[i]) >= w)
        /\ Exp("values of row " \o ToString(i) \o " next to its keys", got.v[i], got.k[i])
B == Cfg.bias
StateOp ==
    CASE Ev.op = "feed" ->
            LET h == IF hist = <<>> THEN Ev.new ELSE [i \in Rows |-> hist[i] \o Ev.new[i]]
                n == Len(Ev.new[1])
                before == Len(h[1]) - n
            IN /\ hist' = h /\ nr' = nr + n
               /\ Holds(Ev.got, h, IF before = 0 THEN Past(B, n) ELSE n + Past(B, before))
      [] Ev.op = "reorder" ->
            /\ hist' = Pick(hist, Ev.order) /\ nr' = nr
            /\ Holds(Ev.got, hist', Past(B, Len(hist[1])))
\* Model: rows are [src, t].
ModelOp ==
    CASE Ev.op = "begin" -> hist' = [i \in 1..Len(Ev.srcs) |-> [s |-> Ev.srcs[i], t |-> <<>>]] /\ nr' = 0
      [] Ev.op = "feed" ->
            LET h == [i \in Rows |-> [s |-> hist[i].s, t |-> hist[i].t \o Ev.toks[i]]] IN
            /\ hist' = h
            /\ nr' = nr + Len(Ev.toks[1])
            /\ Exp("rows of the output", Len(Ev.matches), Len(h))
            /\ \A i \in Rows :
                Chk("the outputs of row " \o ToString(i) \o " are those of the histories " \o ToJson(Ev.matches[i]) \o ", specification says those of " \o ToJson(h[i]),
                    \E k \in 1..Len(Ev.matches[i]) : Ev.matches[i][k] = h[i])
      [] Ev.op = "reorder" -> hist' = Pick(hist, Ev.order) /\ nr' = nr
      [] Ev.op = "more" ->       \* asking for more steps than there are
            /\ Exp("step number", Ev.nr, nr)
            /\ Exp("taking " \o ToString(Ev.n) \o " steps after " \o ToString(nr) \o " of " \o ToString(Cfg.max), Ev.ok, nr + Ev.n <= Cfg.max)
            /\ UNCHANGED <<hist, nr>>
Init == BatchInit /\ hist = <<>> /\ nr = 0
Next == BatchMore /\ BatchStep /\ (IF Cfg.kind = "state" THEN StateOp ELSE ModelOp)
Spec == Init /\ [][Next]_<<tid, l, hist, nr>>
=============================================================================
