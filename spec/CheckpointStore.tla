--------------------------- MODULE CheckpointStore ---------------------------
(* What a user of the checkpoint directory may rely on: a set of listed,      *)
(* always complete checkpoints; at most one save in flight; publication is a  *)
(* single step; a crash loses the save in flight and nothing else.            *)
(* The protocol that implements it over files, ranks and barriers is in       *)
(* Checkpoint.tla, which TLC shows to refine this module; recorded runs of    *)
(* the real manager are validated against the same operators by               *)
(* CheckpointTrace.tla.                                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* st.store : step -> [v, kind]   (v identifies the training state that was saved)
\* st.pend  : <<>> or <<[s, v, kind]>>
\* st.scores: step -> score
Empty == [x \in {} |-> 0]
InitSt == [store |-> Empty, pend |-> <<>>, scores |-> Empty]

Without(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]
With(f, s, v) == (s :> v) @@ f

DropStore(st, s) == [st EXCEPT !.store = Without(@, s)]
DropScore(st, s) == [st EXCEPT !.scores = Without(@, s)]
Start(st, s, v, kind) == [st EXCEPT !.pend = <<[s |-> s, v |-> v, kind |-> kind]>>]
Publish(st) ==
    IF st.pend = <<>> THEN st
    ELSE [st EXCEPT !.store = With(@, st.pend[1].s, [v |-> st.pend[1].v, kind |-> st.pend[1].kind]),
                    !.pend = <<>>]
Lose(st) == [st EXCEPT !.pend = <<>>]
Shrink(st, s) == IF s \in DOMAIN st.store THEN [st EXCEPT !.store[s].kind = "model"] ELSE st
SetScore(st, s, x) == [st EXCEPT !.scores = With(@, s, x)]

\* Retention: which listed steps are stale (0 stands for "option not given").
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
KeepLast(S, n) == {s \in S : Cardinality({t \in S : t > s}) < n}
Better(st, t, s) == \/ st.scores[t] > st.scores[s]
                    \/ st.scores[t] = st.scores[s] /\ t > s
Scored(st) == DOMAIN st.store \cap DOMAIN st.scores
KeepBest(st, n) == {s \in Scored(st) : Cardinality({t \in Scored(st) : Better(st, t, s)}) < n}
Kept(st, last, best, every) ==
    LET S == DOMAIN st.store IN
    {Max(S)}
      \cup (IF last > 0 THEN KeepLast(S, last) ELSE {})
      \cup (IF best > 0 THEN KeepBest(st, best) ELSE {})
      \cup (IF every > 0 THEN {s \in S : s % every = 0} ELSE {})
Stale(st, last, best, every) ==
    IF (last = 0 /\ best = 0 /\ every = 0) \/ DOMAIN st.store = {} THEN {}
    ELSE DOMAIN st.store \ Kept(st, last, best, every)
=============================================================================
