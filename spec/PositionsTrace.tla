--------------------------- MODULE PositionsTrace ---------------------------
(* Batches given to real position encoders; for every place, the position    *)
(* whose encoding was found there.                                           *)
EXTENDS Positions, Batch
vars == <<tid, l>>
Near(a, b, d) == a - b <= d /\ b - a <= d
Encode ==
    /\ Ev.op = "encode"
    /\ LET start == Start(Ev.step, Ev.training) IN
       IF Refused(Ev.lens, start, Cfg.most) THEN Exp("error of sequences that are too long", Ev.err, "ValueError")
       ELSE /\ Exp("error", Ev.err, "")
            /\ LET want == Place(Ev.packed, Ev.lens, Ev.width, start) IN
               \A i \in 1..Len(want) : \A k \in 1..Ev.width :
                   want[i][k] # None => Exp("position at place " \o ToString(<<i, k>>), Ev.found[i][k], want[i][k])
\* What two elements have to do with each other is a matter of how far apart they are.
Relative ==
    /\ Ev.op = "relative"
    /\ \A i, j \in 1..Len(Ev.dots) :
        LET a == Ev.dots[i]  b == Ev.dots[j] IN
        (a[1] - a[2] = b[1] - b[2]) => Chk("products at equal distance " \o ToString(<<a, b>>), Near(a[3], b[3], Ev.tol))
\* Grids: the encoding of an input has its shape; what encodes one coordinate does not vary with the others.
Grid ==
    /\ Ev.op = "grid"
    /\ Exp("error", Ev.err, "")
    /\ Exp("shape", Ev.shape, Ev.inp)
    /\ Exp("coordinate that features vary with", Ev.vary, Ev.want)
    /\ IF Ev.inp = Ev.grid THEN Exp("same as the table", Ev.same, TRUE) ELSE TRUE
Init == BatchInit
Next == BatchMore /\ (Encode \/ Relative \/ Grid) /\ BatchStep
Spec == Init /\ [][Next]_vars
=============================================================================
