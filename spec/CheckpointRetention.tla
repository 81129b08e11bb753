------------------------ MODULE CheckpointRetention ------------------------
(* The retention protocol of a run: every checkpoint is saved, possibly scored,*)
(* and then what is stale is deleted (wholly, or all but its model).  However  *)
(* the run goes, what was asked for is kept, counted over all checkpoints the  *)
(* run ever saved, and nothing else is.                                        *)
EXTENDS CheckpointStore

CONSTANTS Steps, Scores, KLast, KBest, KEvery

VARIABLES st, ever, evscore, n
vars == <<st, ever, evscore, n>>

Init == st = InitSt /\ ever = {} /\ evscore = Empty /\ n = 1

Drop(x, S) == [x EXCEPT !.store = [s \in DOMAIN x.store \ S |-> x.store[s]],
                        !.scores = [s \in DOMAIN x.scores \ S |-> x.scores[s]]]

Save(x) == Publish(Start(x, n, n, "full"))
Tidy(x) == Drop(x, Stale(x, KLast, KBest, KEvery))

Scored1(sc) ==
    /\ n \in Steps
    /\ st' = Tidy(SetScore(Save(st), n, sc))
    /\ evscore' = With(evscore, n, sc)
    /\ ever' = ever \cup {n} /\ n' = n + 1
Unscored ==
    /\ n \in Steps
    /\ st' = Tidy(Save(st))
    /\ ever' = ever \cup {n} /\ n' = n + 1 /\ UNCHANGED evscore
\* A step at which no checkpoint is due.
Skip == n \in Steps /\ n' = n + 1 /\ UNCHANGED <<st, ever, evscore>>

Next == (\E sc \in Scores : Scored1(sc)) \/ Unscored \/ Skip
Spec == Init /\ [][Next]_vars

All == [store |-> [s \in ever |-> [v |-> s, kind |-> "full"]], pend |-> <<>>, scores |-> evscore]
NoOption == KLast = 0 /\ KBest = 0 /\ KEvery = 0

\* Exactly what was asked for, counted over the whole run - except that the best ones
\* may once have been the last ones only; nothing that is wanted is ever gone.
NothingWantedIsGone == ever # {} => Kept(All, KLast, KBest, KEvery) \subseteq DOMAIN st.store
NothingElseIsKept ==
    ever # {} => IF NoOption THEN DOMAIN st.store = ever
                 ELSE DOMAIN st.store = Kept(All, KLast, KBest, KEvery)
ScoresFollow == DOMAIN st.scores \subseteq DOMAIN st.store
=============================================================================
