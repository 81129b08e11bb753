---------------------------- MODULE ValidationTrace ----------------------------
(* One rank's history of training draws, validations (or one evaluation, generation) *)
(* and resets: what its units saw, what was published, what was returned.            *)
EXTENDS Validation, Batch, FiniteSets
VARIABLES trained, used, draws
vars == <<trained, used, draws>>
Init == BatchInit /\ trained = 0 /\ used = FALSE /\ draws = <<>>
Units == Cfg.units
NU == Len(Units)
D == Cfg.d
\* What this rank is to see: reads of batches of units, in order.
Reads == Cat([u \in 1..NU |-> LET g(b) == <<u, b.v, b.w>>
                                  f(r) == Map(g, r) IN Map(f, Units[u].data[D])])
Upto(k) == CHOOSE j \in 1..Len(Reads) : Len(Cat(SubSeq(Reads, 1, j))) >= k /\ Len(Cat(SubSeq(Reads, 1, j - 1))) < k
Count(u) == Len(Mine(Units[u].data, D))
RECURSIVE Before(_)
Before(u) == IF u = 0 THEN 0 ELSE Before(u - 1) + Count(u)
\* Units over by the time batch k is processed (all, for k = 0).
Over(k) == IF k = 0 THEN 1..NU ELSE {u \in 1..NU : Before(u) < k}
Begun(k) == IF k = 0 THEN NU ELSE IF Over(k) = 1..NU THEN NU ELSE 1 + (CHOOSE n \in 0..NU : Over(k) = 1..n)
Seen(e) ==
    IF e.brk > 0 THEN SubSeq(Cat(Reads), 1, e.brk)
    ELSE IF e.stop > 0 THEN Cat(SubSeq(Reads, 1, Upto(e.stop)))
    ELSE Cat(Reads)
Cut(e) == e.brk + e.stop
Least(a, b) == IF a < b THEN a ELSE b
\* Random numbers drawn by a run are those of any other, as far as both go.
SameDraws(e) == LET n == Least(Len(e.draws), Len(draws)) IN SubSeq(e.draws, 1, n) = SubSeq(draws, 1, n)
Category(u) ==
    CASE Cfg.kind = "gen" -> "generation"
      [] Units[u].name = "" -> Cfg.kind
      [] OTHER -> Cfg.kind \o "/" \o Units[u].name
Pub(e, p, u) ==
    LET data == Units[u].data IN
    /\ Exp("category", p.cat, Category(u))
    /\ Exp("step published", p.step, IF Cfg.kind = "valid" THEN <<e.step>> ELSE <<>>)
    /\ Exp("sum over all batches of all ranks", p.sum, V(data))
    /\ Exp("number of examples", p.num, W(data))
    /\ Exp("value made by the unit", p.double, 2 * V(data))
    /\ Exp("metric set by finalize", p.fin, Len(All(data)))
    /\ Exp("metric of some units only", p.rare, IF Units[u].rare THEN <<V(data) + (3 * Len(All(data)))>> ELSE <<>>)
    /\ Exp("examples per read", p.bs, PerRead(data))
    /\ Chk("weighted mean " \o ToString(p.mean), W(data) > 0 =>
           /\ p.mean * W(data) <= (1000 * VW(data)) + W(data)
           /\ 1000 * VW(data) <= (p.mean * W(data)) + W(data))
    /\ Exp("names published", p.keys, "ok")
\* The score of a unit, if it has one.
Part(u) ==
    LET data == Units[u].data IN
    CASE Cfg.score.name = "sum" -> <<V(data)>>
      [] Cfg.score.name = "double" -> <<2 * V(data)>>
      [] Cfg.score.name = "rare" -> IF Units[u].rare THEN <<V(data) + (3 * Len(All(data)))>> ELSE <<>>
      [] OTHER -> <<>>
Parts == Cat([u \in 1..NU |-> Part(u)])
Res(e) ==
    CASE e.brk > 0 -> "broken"
      [] e.stop > 0 -> "stopped"
      [] Cfg.kind = "valid" /\ Cfg.root /\ Cfg.score.name # "none" /\ Parts = <<>> -> "InternalError"
      [] OTHER -> "ok"
Run(e) ==
    IF used THEN
        /\ Exp("run again", e.res, "InvalidOperationError")
        /\ Exp("batches of a run that was refused", e.seen, <<>>)
        /\ UNCHANGED vars
    ELSE
        /\ Exp("batches processed", e.seen, Seen(e))
        /\ Exp("outcome", e.res, Res(e))
        /\ Chk("random numbers differ from another run", SameDraws(e))
        /\ Exp("random numbers drawn", Len(e.draws), Len(e.seen))
        /\ Exp("modes", e.modes, IF Len(e.seen) = 0 /\ Over(Cut(e)) = {} THEN <<>> ELSE <<<<TRUE, Cfg.amp, Cfg.kind = "valid">>>>)
        /\ Exp("steps told to the units", e.steps, IF Cfg.kind = "valid" THEN [u \in 1..Begun(Cut(e)) |-> e.step] ELSE <<>>)
        /\ Exp("published", Len(e.pubs), IF Cfg.root THEN Cardinality(Over(Cut(e))) ELSE 0)
        /\ \A u \in 1..Len(e.pubs) : Pub(e, e.pubs[u], u)
        /\ Exp("score", e.score,
               IF Cfg.kind # "valid" \/ Res(e) # "ok" \/ Cfg.score.name = "none" THEN <<>>
               ELSE IF Cfg.root THEN <<IF Cfg.score.higher THEN "" ELSE "-", SumOf(Parts)>>
               ELSE <<"", 0>>)
        /\ used' = TRUE
        /\ draws' = IF Len(e.draws) > Len(draws) THEN e.draws ELSE draws
        /\ UNCHANGED trained
Train(e) ==
    /\ Exp("random number of training", e.draw, Cfg.stream[trained + 1])
    /\ trained' = trained + 1 /\ UNCHANGED <<used, draws>>
Reset(e) == used' = FALSE /\ UNCHANGED <<trained, draws>>
Step ==
    LET e == Ev IN
    CASE e.op = "run" -> Run(e)
      [] e.op = "train" -> Train(e)
      [] e.op = "reset" -> Reset(e)
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<vars, tid, l>>
=============================================================================
