--------------------------- MODULE MetricSyncTrace ---------------------------
(* Metrics of several ranks.  Every rank owns a bag with the same metrics;     *)
(* synchronizing gives every rank the values of all updates taken together and *)
(* changes nobody's own metrics.                                               *)
EXTENDS MetricBag, Batch
VARIABLE bags   \* sequence over ranks of: name -> metric
vars == <<tid, l, bags>>
N == Cfg.n

RECURSIVE All(_, _, _)
All(b, n, r) == IF r = 1 THEN b[1][n] ELSE Merge(All(b, n, r - 1), b[r][n])

Values(view, what, M(_)) ==
    /\ Exp("metrics of " \o what, {view[i].n : i \in 1..Len(view)}, DOMAIN bags[1])
    /\ \A i \in 1..Len(view) :
         LET m == M(view[i].n) IN
         Chk("value of " \o view[i].n \o " of " \o what \o ": got " \o ToString(view[i].v) \o " for " \o ToString(m), IsValue(m, view[i].v))
Step ==
    LET e == Ev IN
    CASE e.op = "upd" -> bags' = [bags EXCEPT ![e.r][e.n] = Put(@, e.v, e.w)]
      [] e.op = "reset" -> bags' = [bags EXCEPT ![e.r] = [n \in DOMAIN @ |-> EmptyM(@[n].k)]]
      [] e.op = "own" -> (\A r \in 1..N : Values(e.views[r], "rank " \o ToString(r - 1), LAMBDA n : bags[r][n])) /\ UNCHANGED bags
      [] e.op = "sync" ->
            /\ Exp("success", e.res, [r \in 1..N |-> "ok"])
            /\ \A r \in 1..N : Values(e.views[r], "all ranks, at rank " \o ToString(r - 1), LAMBDA n : All(bags, n, N))
            /\ UNCHANGED bags
      \* Metrics with an opaque state: as one process that made all the updates.
      [] e.op = "opaque" -> (\A r \in 1..N : Exp(e.what \o " at rank " \o ToString(r - 1), e.got[r], e.single)) /\ UNCHANGED bags
      [] OTHER -> Rej("no error: " \o e.what) /\ FALSE /\ UNCHANGED bags

Init == BatchInit /\ bags = [r \in 1..Traces[tid].cfg.n |-> [n \in DOMAIN Traces[tid].cfg.kinds |-> EmptyM(Traces[tid].cfg.kinds[n])]]
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
