--------------------------- MODULE CheckpointNames ---------------------------
(* A checkpoint directory as a source of models: which names it offers and     *)
(* what they stand for, on top of the recorded manager runs of CheckpointTrace.*)
EXTENDS CheckpointTrace

VARIABLE fam    \* 0: nothing recorded; else the family and configuration recorded last

nvars == <<vars, fam>>
Bad == -777

\* <<kind, index, step>>: every step; the last one; the best one and the ranking.
Ranking == SetToSortSeq(Scored(st), LAMBDA a, b : Better(st, a, b))
Offered ==
    {<<"step", s, s>> : s \in DOMAIN st.store}
      \cup (IF DOMAIN st.store = {} THEN {} ELSE {<<"last", 0, Max(DOMAIN st.store)>>})
      \cup (IF Ranking = <<>> THEN {} ELSE {<<"best", -1, Ranking[1]>>})
      \cup {<<"best", i - 1, Ranking[i]>> : i \in 1..Len(Ranking)}
Damaged == \E s \in Scored(st) : st.scores[s] = Bad

Dump == Ev.op = "dump" /\ fam' = Ev.f /\ UNCHANGED st
\* Files that are no checkpoints: leftovers of crashes and strangers.
Litter == Ev.op = "litter" /\ UNCHANGED <<st, fam>>
Damage == Ev.op = "damage" /\ st' = SetScore(st, Ev.s, Bad) /\ UNCHANGED fam

Names ==
    /\ Ev.op = "names"
    /\ IF fam = 0 \/ Damaged
       THEN Exp("the directory is refused", Ev.res, "error")
       ELSE /\ Exp("the directory is accepted", Ev.res, "ok")
            /\ LET got == {Ev.names[i] : i \in 1..Len(Ev.names)} IN
               /\ Chk("names never offered: " \o ToJson(got \ Offered), got \subseteq Offered)
               /\ Chk("names missing: " \o ToJson(Offered \ got), Offered \subseteq got)
            /\ Exp("family and configuration of every name", {Ev.fams[i] : i \in 1..Len(Ev.fams)} \ {fam}, {})
            /\ Exp("number of names with a family", Len(Ev.fams), Len(Ev.names))
            /\ Exp("names that do not load", Ev.broken, <<>>)
    /\ UNCHANGED <<st, fam>>

NInit == Init /\ fam = 0
NNext == \/ Next /\ UNCHANGED fam
         \/ BatchMore /\ BatchStep /\ (Dump \/ Litter \/ Damage \/ Names)
NSpec == NInit /\ [][NNext]_nvars
=============================================================================
