---------------------------- MODULE TrainerTrace ----------------------------
(* Recorded lives of real trainers, one rank's view: what it read, tried, and  *)
(* did at every boundary; what the checkpoint directory holds in the end; and  *)
(* further lives started from a copy of the directory (a crash) or from what   *)
(* the last life left.                                                         *)
EXTENDS Trainer, Batch, SequencesExt
VARIABLES s, i, dir, cks, live
vars == <<tid, l, s, i, dir, cks, live>>
P == Cfg.p
R == Cfg.r
Ref == Cfg.ref

LrOf(n) == 1 + ((n * 5) % 7)
ScoreOf(n) == (n * 7) % 5

\* The checkpoint directory. mode: 0 full checkpoints, 1 and 3 models only, 2 models only but for the last.
NoDir == [steps |-> {}, full |-> {}, scores |-> {}]
Put(d, n) == [steps |-> d.steps \cup {n}, full |-> IF Cfg.mode \in {1, 3} THEN d.full \ {n} ELSE d.full \cup {n},
              scores |-> {x \in d.scores : x[1] # n}]
LastOf(S, k) == {x \in S : Cardinality({y \in S : y > x}) < k}
Prune(d) == LET st == IF Cfg.keep > 0 THEN LastOf(d.steps, Cfg.keep) ELSE d.steps
                fu == IF Cfg.mode = 2 THEN LastOf(d.full \cap st, 1) ELSE d.full \cap st IN
            [steps |-> st, full |-> fu, scores |-> {x \in d.scores : x[1] \in st}]

OnBegin == Chk("a run begins where the last one ended", s.ph \in {"start", "resumed", "over"}) /\ UNCHANGED <<s, i, dir, cks, live>>

OnRead ==
    LET e == Ev t == AfterRead(P, s) ends == ReadEnds(P, s) IN
    /\ Exp("phase at a read", s.ph, "read")
    /\ Exp("batches read before step " \o ToString(s.n + 1), e.got, Got(P, s.y, R))
    /\ s' = [t EXCEPT !.stop = IF e.stop \/ @ # "no" THEN (IF ends THEN "hard" ELSE IF @ = "no" THEN "soft" ELSE @) ELSE @]
    /\ UNCHANGED <<i, dir, cks, live>>

OnAttempt ==
    LET e == Ev t == AfterAttempt(P, s) IN
    /\ Exp("phase at an attempt", s.ph, "attempt")
    /\ Chk("a step is run although a stop was requested before the previous one", s.stop # "hard")
    /\ Exp("step number", e.n, s.n + 1)
    /\ Exp("data epoch of step " \o ToString(s.n + 1), e.e, s.e)
    /\ Exp("batches of step " \o ToString(s.n + 1), e.b, s.b[R])
    /\ Exp("learning rate of step " \o ToString(s.n + 1), e.lr, LrOf(s.n + 1))
    /\ Exp("training mode", e.tr, TRUE)
    /\ Exp("parameters are updated in attempt at step " \o ToString(s.n + 1), e.u, ~Overflows(P, s))
    /\ IF Ref = <<>> THEN TRUE
       ELSE /\ Chk("a run goes on after the last step of the undisturbed one", i < Len(Ref))
            /\ Exp("attempt " \o ToString(i + 1) \o " compared with the undisturbed run", [n |-> e.n, e |-> e.e, b |-> e.b, p |-> e.p], Ref[i + 1])
    /\ s' = [t EXCEPT !.stop = IF e.stop \/ @ # "no" THEN "hard" ELSE @]
    /\ i' = i + 1 /\ live' = (live \/ ~Overflows(P, s))
    /\ UNCHANGED <<dir, cks>>

Todo == CASE s.ph = "resumed" -> [must |-> {}, may |-> {}, end |-> "go"]
          [] s.ph = "over" -> [must |-> {}, may |-> {}, end |-> "done"]
          [] OTHER -> Work(P, s)
\* Saved only because the early stopper fired.
Extra == s.ph \in {"step", "epoch"} /\ Todo.end = "stopped" /\ s.stop # "hard"
         /\ ~(IF s.ph = "step" THEN DueStep(P, "save", s.n) \/ (P.maxS > 0 /\ s.n >= P.maxS)
              ELSE DueEpoch(P, "save", s.e) \/ (P.maxE > 0 /\ s.e >= P.maxE))
OnWork ==
    LET e == Ev w == Todo
        seen == (IF e.saves # <<>> THEN {"save"} ELSE {}) \cup (IF e.pubs # <<>> THEN {"pub"} ELSE {})
                \cup (IF e.vals # <<>> THEN {"val"} ELSE {})
        kinds == IF R = 1 THEN seen ELSE seen \cup ({"pub"} \cap w.must)
        \* The request came in time to stop right here.
        prompt == e.stop /\ w.end = "go" /\ e.then = "stopped"
        must == IF prompt THEN {"save"} \ s.done ELSE w.must
        may == IF prompt THEN Avail(P) ELSE w.may
        at == s.ph \o " of step " \o ToString(s.n) \o ", epoch " \o ToString(s.e)
        scored == "save" \in kinds /\ "val" \in kinds /\ P.scored
        d1 == IF "save" \in kinds THEN Prune(Put(dir, s.n)) ELSE dir IN
    /\ Chk("work due at " \o at \o " is not done: " \o ToString(must \ kinds), must \subseteq kinds)
    /\ Chk("work done at " \o at \o " that is not due: " \o ToString(kinds \ may), kinds \subseteq may)
    /\ Exp("what follows " \o at, e.then, IF prompt \/ (w.end = "done" /\ e.stop) THEN "stopped" ELSE w.end)
    /\ Exp("saves at " \o at, e.saves, IF "save" \in kinds THEN <<s.n>> ELSE <<>>)
    /\ Exp("validations at " \o at, e.vals, IF "val" \in kinds THEN <<<<s.n, TRUE>>>> ELSE <<>>)
    /\ Exp("reports at " \o at, Len(e.pubs), IF "pub" \in seen THEN 1 ELSE 0)
    /\ \A k \in 1..Len(e.pubs) :
         LET q == e.pubs[k] IN
         /\ Exp("step of the report at " \o at, q.n, s.n)
         /\ Chk("epoch of the report at " \o at \o " is " \o ToString(q.e), q.e \in {s.e, NextEpoch(s)})
         /\ Exp("metric since the last report at " \o at, q.m, s.m)
         /\ Exp("total metric at " \o at, q.tot, s.tot)
         /\ Exp("section of the report", q.cat, "train")
         /\ IF live THEN Exp("reported learning rate at " \o at, q.lr, LrOf(s.n)) ELSE TRUE
    /\ IF Extra THEN Chk("score at " \o at, e.scores \in {<<>>, <<<<s.n, ScoreOf(s.n)>>>>})
       ELSE Exp("scores at " \o at, e.scores, IF scored THEN <<<<s.n, ScoreOf(s.n)>>>> ELSE <<>>)
    /\ IF e.then \in {"done", "MinimumLossScaleReachedError"} /\ Ref # <<>>
       THEN Exp("attempts in the end", i, Len(Ref)) ELSE TRUE
    /\ LET t == AfterWork(P, s, kinds) IN
       s' = [t EXCEPT !.ph = IF e.then = "go" THEN "read" ELSE "ended", !.stop = IF e.stop /\ @ = "no" THEN "soft" ELSE @]
    /\ dir' = [d1 EXCEPT !.scores = @ \cup {<<x[1], x[2]>> : x \in ToSet(e.scores)}]
    /\ cks' = IF "save" \in kinds THEN Append(cks, [c |-> Saved(s), dir |-> Put(dir, s.n), i |-> i]) ELSE cks
    /\ UNCHANGED <<i, live>>

Left(d, e) ==
    /\ Exp("checkpoints left", e.steps, SetToSortSeq(d.steps, LAMBDA a, b : a < b))
    /\ Exp("resumable checkpoints left", e.full, SetToSortSeq(d.full, LAMBDA a, b : a < b))
    /\ Exp("scores left", {<<x[1], x[2]>> : x \in ToSet(e.scores)}, d.scores)
    /\ Exp("unfinished checkpoints left", e.extra, <<>>)
OnLeft == /\ Chk("the run is over", s.ph = "ended")
          \* A run that failed may leave its last checkpoint in flight.
          /\ IF Ev.failed THEN TRUE ELSE Left(dir, Ev)
          /\ UNCHANGED <<s, i, dir, cks, live>>

\* Started again: from the k-th checkpoint (a crash right after it), from the last one, or from scratch.
OnRestart ==
    LET e == Ev IN
    IF e.k = 0 THEN /\ s' = InitS(P) /\ i' = 0 /\ live' = FALSE /\ UNCHANGED <<dir, cks>>
    ELSE LET c == cks[e.k] n == c.c.n
             d == IF e.crash THEN c.dir ELSE dir
             sc == ToSet(e.scores) IN
         /\ Exp("scores in the directory after checkpoint " \o ToString(e.k), sc \ {n}, {x[1] : x \in d.scores} \ {n})
         /\ s' = [Resumed(P, c.c) EXCEPT !.ph = IF Over(P, c.c) THEN "over" ELSE "resumed"]
         /\ i' = c.i /\ live' = FALSE
         /\ dir' = [d EXCEPT !.scores = {x \in @ : x[1] # n} \cup (IF n \in sc THEN {<<n, ScoreOf(n)>>} ELSE {})]
         /\ UNCHANGED cks
OnRng == Exp("random state outside of training is unchanged", Ev.same, TRUE) /\ UNCHANGED <<s, i, dir, cks, live>>
OnOther == Rej(ToJson(Ev)) /\ FALSE /\ UNCHANGED <<s, i, dir, cks, live>>

Init == BatchInit /\ s = InitS(P) /\ i = 0 /\ dir = NoDir /\ cks = <<>> /\ live = FALSE
Next == BatchMore /\ BatchStep
        /\ CASE Ev.a = "begin" -> OnBegin [] Ev.a = "read" -> OnRead [] Ev.a = "attempt" -> OnAttempt [] Ev.a = "work" -> OnWork
             [] Ev.a = "left" -> OnLeft [] Ev.a = "restart" -> OnRestart [] Ev.a = "rng" -> OnRng [] OTHER -> OnOther
Spec == Init /\ [][Next]_vars
=============================================================================
