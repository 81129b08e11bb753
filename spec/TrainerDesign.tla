---------------------------- MODULE TrainerDesign ----------------------------
(* All runs of small configurations, killed and resumed anywhere.              *)
EXTENDS Trainer
CONSTANTS MaxLen, MaxSteps, MaxEpochs, Every, MaxLives, Bad
VARIABLES p, s, trained, ck, lives, over, und
vars == <<p, s, trained, ck, lives, over, und>>

Scheds == {<<0, a, 0, b>> : a \in Every, b \in Every}
Configs == {[n |-> 1, len |-> <<ln>>, k |-> k, drop |-> d, sync |-> TRUE, last |-> FALSE, maxS |-> ms, maxE |-> me,
             save |-> sv, pub |-> <<0, 0, 0, 0>>, val |-> vl, hasVal |-> vl[2] + vl[4] > 0, atStart |-> FALSE, scored |-> TRUE,
             early |-> er, bad |-> <<IF bd = 0 THEN <<>> ELSE <<bd>>>>, sc |-> 9, minSc |-> 0, fp16 |-> bd > 0] :
             ln \in 1..MaxLen, k \in 1..2, d \in BOOLEAN, ms \in MaxSteps, me \in MaxEpochs, sv \in Scheds,
             vl \in {<<0, 0, 0, 0>>, <<0, 1, 0, 1>>}, er \in {<<>>, <<2>>}, bd \in Bad}
\* The attempts of a run nobody interferes with.
RECURSIVE Canon(_, _, _)
Canon(q, t, acc) ==
    IF Len(acc) >= 14 THEN acc
    ELSE CASE t.ph = "read" -> Canon(q, AfterRead(q, t), acc)
           [] t.ph = "attempt" -> Canon(q, AfterAttempt(q, t), Append(acc, <<t.n + 1, t.e, t.b[1]>>))
           [] OTHER -> LET w == Work([q EXCEPT !.early = <<>>], t) IN
                       IF w.end # "go" THEN acc ELSE Canon(q, AfterWork(q, t, w.must), acc)
NoCk == [n |-> 0 - 1]
Init == /\ p \in {c \in Configs : c.maxS + c.maxE > 0}
        /\ s = InitS(p) /\ trained = <<>> /\ ck = NoCk /\ lives = 1 /\ over = "no"
        /\ und = Canon(p, InitS(p), <<>>)

DoWork == /\ over = "no" /\ s.ph \in {"start", "step", "again", "epoch", "empty", "exploded"}
          /\ LET w == Work(p, s) IN
             /\ s' = AfterWork(p, s, w.must)
             /\ ck' = IF "save" \in w.must THEN [Saved(s) EXCEPT !.n = s.n] @@ [seen |-> Len(trained)] ELSE ck
             /\ over' = IF w.end = "go" THEN "no" ELSE w.end
          /\ UNCHANGED <<p, trained, lives, und>>
DoRead == over = "no" /\ s.ph = "read" /\ s' = AfterRead(p, s) /\ UNCHANGED <<p, trained, ck, lives, over, und>>
DoTry == /\ over = "no" /\ s.ph = "attempt" /\ s' = AfterAttempt(p, s)
         /\ trained' = Append(trained, <<s.n + 1, s.e, s.b[1]>>)
         /\ UNCHANGED <<p, ck, lives, over, und>>
Ask == over = "no" /\ s.ph = "attempt" /\ s.stop = "no" /\ s' = [s EXCEPT !.stop = "hard"] /\ UNCHANGED <<p, trained, ck, lives, over, und>>
\* The job is killed, or started again after it ended; unsaved work is lost.
Kill == /\ lives < MaxLives /\ lives' = lives + 1
        /\ IF ck = NoCk THEN s' = InitS(p) /\ trained' = <<>> /\ over' = "no"
           ELSE /\ s' = Resumed(p, ck) /\ trained' = SubSeq(trained, 1, ck.seen)
                /\ over' = IF Over(p, ck) THEN "done" ELSE "no"
        /\ UNCHANGED <<p, ck, und>>
Next == DoWork \/ DoRead \/ DoTry \/ Ask \/ Kill
Spec == Init /\ [][Next]_vars

\* Whatever happened, what has been trained is what an undisturbed run trains first.
SamePath == Len(trained) <= 14 => Len(trained) <= Len(und) /\ trained = SubSeq(und, 1, Len(trained))
\* A run that ended by itself has made all the steps.
AllDone == over = "done" /\ Len(trained) < 14 => trained = und
\* A run that ended leaves a checkpoint of its last step.
LastSaved == over \in {"done", "stopped"} /\ s.n > 0 /\ lives = 1 => ck # NoCk /\ ck.n = s.n
=============================================================================
