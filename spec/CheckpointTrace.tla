--------------------------- MODULE CheckpointTrace ---------------------------
(* Recorded runs of the real checkpoint manager, validated against            *)
(* CheckpointStore.  Cfg: [n |-> number of ranks].                            *)
EXTENDS CheckpointStore, Batch, SequencesExt

VARIABLE st
vars == <<tid, l, st>>

N == Cfg.n
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
AllRanks(x) == [i \in 1..N |-> x]

SavedCb(s, b) == <<"saved", s, b, TRUE>>
ReadyCb(s, b) == <<"ready", s, b, TRUE>>

\* The save in flight is completed first: its callback comes first.
PendCb(x) == IF x.pend = <<>> THEN <<>> ELSE <<SavedCb(x.pend[1].s, FALSE)>>

Cleared(x, s) == DropScore(DropStore(x, s), s)

Again == st.pend # <<>> /\ st.pend[1].s = Ev.s
Blind(q) == IF q = <<>> THEN q ELSE [q EXCEPT ![1][4] = TRUE]

Save ==
    LET e == Ev
        a == Cleared(Publish(st), e.s)
        b == Start(a, e.s, e.v, e.kind)
    IN  /\ e.op = "save"
        \* Saving the step in flight again withdraws it, possibly before the
        \* callback of a slower rank looks.
        /\ Exp("callbacks of the save", [i \in 1..Len(e.cb) |-> IF Again THEN Blind(e.cb[i]) ELSE e.cb[i]],
               AllRanks(PendCb(st) \o <<ReadyCb(e.s, e.block)>>
                        \o (IF e.block THEN <<SavedCb(e.s, TRUE)>> ELSE <<>>)))
        /\ Exp("in-flight flag", e.saving, AllRanks(~e.block))
        /\ st' = IF e.block THEN Publish(b) ELSE b

Poll ==
    LET e == Ev
        fin == st.pend # <<>> /\ (e.block \/ e.done = N)
    IN  /\ e.op = "poll"
        /\ Exp("result of the poll", e.res,
               AllRanks(IF st.pend = <<>> THEN "none" ELSE IF fin THEN "true" ELSE "false"))
        /\ Exp("callbacks of the poll", e.cb, AllRanks(IF fin THEN PendCb(st) ELSE <<>>))
        /\ Exp("in-flight flag", e.saving, AllRanks(st.pend # <<>> /\ ~fin))
        /\ st' = IF fin THEN Publish(st) ELSE st

Removed(x, s, keep) == IF keep THEN Shrink(x, s) ELSE Cleared(x, s)

Delete ==
    /\ Ev.op = "delete"
    /\ st' = Removed(st, Ev.s, Ev.keep)

Score ==
    /\ Ev.op = "score"
    /\ st' = SetScore(st, Ev.s, Ev.x)

StaleEv ==
    LET e == Ev IN
    /\ e.op = "stale"
    /\ Exp("stale steps", e.res, AllRanks(Sorted(Stale(st, e.last, e.best, e.every))))
    /\ UNCHANGED st

\* Content of a listed checkpoint as every rank reads it back:
\* trainer, model, optimizer, data reader (-1: not there).
\* A "part" checkpoint is model-only, but a crash left some of the other files.
CodesOk(x, c) ==
    CASE x.kind = "full" -> c = <<x.v, x.v, x.v, x.v>>
      [] x.kind = "model" -> c = <<-1, x.v, -1, -1>>
      [] OTHER -> c[1] = -1 /\ c[2] = x.v /\ c[3] \in {-1, x.v} /\ c[4] \in {-1, x.v}

ScoreList(x) ==
    LET q == SetToSortSeq(Scored(x), LAMBDA a, b : Better(x, a, b))
    IN  [i \in 1..Len(q) |-> <<x.scores[q[i]], q[i]>>]

Part(x, s) == IF s \in DOMAIN x.store /\ x.store[s].kind = "full"
              THEN [x EXCEPT !.store[s].kind = "part"] ELSE x

Seen(x, e) ==
    LET L == Sorted(DOMAIN x.store)
        F == Sorted({s \in DOMAIN x.store : x.store[s].kind = "full"})
        LastOf(q) == IF q = <<>> THEN -1 ELSE q[Len(q)]
    IN  /\ Exp("listed steps", e.list, L)
        /\ Exp("resumable steps", e.full, F)
        /\ Exp("existence", e.has, <<L # <<>>, F # <<>>>>)
        /\ Exp("last steps", e.last, <<LastOf(L), LastOf(F)>>)
        /\ Chk("content read back per step and rank, which should be "
                   \o ToJson([i \in 1..Len(L) |-> x.store[L[i]]]),
               /\ Len(e.content) = Len(L)
               /\ \A i \in 1..Len(L) : /\ Len(e.content[i]) = N
                                      /\ \A r \in 1..N : CodesOk(x.store[L[i]], e.content[i][r]))
        /\ Exp("scores", e.scores, ScoreList(x))

Obs ==
    /\ Ev.op = "obs"
    /\ Chk("ranks agree", Ev.agree)
    /\ Seen(st, Ev)
    /\ UNCHANGED st

\* The process died (or an I/O error struck) somewhere inside the operation
\* Ev.of: any prefix of its steps took effect, whatever was in flight is lost.
Outcomes(x, e) ==
    CASE e.op = "save" ->
           LET p == Publish(x)
               d == DropStore(p, e.s)
               c == Cleared(p, e.s)
           IN  {Lose(x), p, d, c, Publish(Start(c, e.s, e.v, e.kind))}
      [] e.op = "poll" -> {Lose(x), Publish(x)}
      [] e.op = "delete" -> {Lose(x), DropStore(Lose(x), e.s), Removed(Lose(x), e.s, e.keep)}
      [] e.op = "score" -> {Lose(x), SetScore(Lose(x), e.s, e.x)}
      [] OTHER -> {Lose(x)}
\* Removing "keep the model" never unlists the step.
OutcomesOf(x, e) ==
    IF e.op = "delete" /\ e.keep
    THEN {Lose(x), Shrink(Lose(x), e.s), Part(Lose(x), e.s)} ELSE Outcomes(x, e)

Crash ==
    /\ Ev.op \in {"crash", "fail"}
    /\ st' \in OutcomesOf(st, Ev.of)

\* One file of a listed checkpoint was damaged: whatever every rank loads is either
\* exactly what was saved for it or reported as missing or damaged.
Hurt ==
    LET e == Ev
        x == st.store[e.s]
        ok == IF x.kind = "full" THEN <<x.v, x.v, x.v, x.v>> ELSE <<-1, x.v, -1, -1>>
    IN  /\ e.op = "hurt"
        /\ Chk("damage is reported and nothing else changes",
               /\ \A r \in 1..N, k \in 1..4 : e.codes[r][k] \in {ok[k], e.bad}
               /\ \E r \in 1..N, k \in 1..4 : e.codes[r][k] # ok[k])
        /\ UNCHANGED st

\* A state that cannot be checkpointed is refused; nothing gets listed for it.
Refuse ==
    /\ Ev.op = "refuse"
    /\ Exp("invalid state is refused", Ev.res, AllRanks("refused"))
    /\ st' = Cleared(Publish(st), Ev.s)

\* A call that raised although nothing was wrong, or a job that hangs.
Unexpected == Ev.op = "error" /\ Chk("no error and no hang: " \o Ev.what, FALSE) /\ UNCHANGED st

Init == BatchInit /\ st = InitSt
Next == BatchMore /\ BatchStep
        /\ (Save \/ Poll \/ Delete \/ Score \/ StaleEv \/ Obs \/ Crash \/ Hurt \/ Refuse \/ Unexpected)
Spec == Init /\ [][Next]_vars
=============================================================================
