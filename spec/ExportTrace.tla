------------------------------ MODULE ExportTrace ------------------------------
(* Calls of the real exporter by all ranks, processes and callbacks, in the order   *)
(* in which they happened.                                                          *)
EXTENDS Batch, FiniteSets
VARIABLES at, ended, pend, run, out, jobs, cbs, res, late
vars == <<at, ended, pend, run, out, jobs, cbs, res, late>>
NR == Cfg.n
Plan == Cfg.plan
Ranks == 1..NR
Exports == {i \in 1..Len(Plan) : Plan[i] \in {"xa", "xb"}}
Init ==
    /\ BatchInit
    /\ at = [r \in Ranks |-> 0]          \* call the rank is in, or made last
    /\ ended = [r \in Ranks |-> 0]       \* last call it came back from
    /\ pend = [r \in Ranks |-> 0]        \* export it has in flight
    /\ run = {}                          \* processes
    /\ out = [i \in 1..Len(Plan) |-> "none"]
    /\ jobs = {}                         \* background jobs that ended, as <<rank, export>>
    /\ cbs = [i \in 1..Len(Plan) |-> [r \in Ranks |-> 0]]
    /\ res = [i \in 1..Len(Plan) |-> "none yet"]
    /\ late = [r \in Ranks |-> FALSE]    \* its job had ended before the call
Inside(r) == at[r] > ended[r]
Reported(i) == out[i] # "none"
Call(e) ==
    /\ Exp("next call", e.i, at[e.r] + 1)
    /\ ~Inside(e.r)
    /\ at' = [at EXCEPT ![e.r] = e.i]
    /\ late' = [late EXCEPT ![e.r] = pend[1] # 0 /\ e.r = 1 /\ <<1, pend[1]>> \in jobs]
    /\ UNCHANGED <<ended, pend, run, out, jobs, cbs, res>>
Start(e) ==
    /\ Chk("process of a rank other than the first", e.r = 1)
    /\ Chk("process of something that is not an export", e.i \in Exports)
    /\ Chk("process of an export not asked for", at[1] >= e.i)
    /\ Chk("second process of an export", out[e.i] = "none" /\ e.i \notin run)
    /\ Chk("two processes at once", run = {})
    /\ Chk("process of an export before the one before it was reported",
           \A j \in Exports : j < e.i => (Reported(j) /\ cbs[j][1] = (IF out[j] = "ok" THEN 1 ELSE 0)))
    /\ Exp("command", e.cmd, TRUE)
    /\ run' = run \cup {e.i}
    /\ UNCHANGED <<at, ended, pend, out, jobs, cbs, res, late>>
End(e) ==
    /\ e.i \in run
    /\ run' = run \ {e.i}
    /\ out' = [out EXCEPT ![e.i] = e.how]
    /\ UNCHANGED <<at, ended, pend, jobs, cbs, res, late>>
Job(e) == jobs' = jobs \cup {<<e.r, e.i>>} /\ UNCHANGED <<at, ended, pend, run, out, cbs, res, late>>
Callback(e) ==
    LET c == at[e.r] IN
    /\ Chk("callback outside of a call", Inside(e.r))
    /\ Chk("callback of an export that is not in flight", e.i = (IF pend[e.r] # 0 /\ out[pend[e.r]] # "bad" THEN pend[e.r] ELSE IF Plan[c] = "xb" THEN c ELSE 0))
    /\ Exp("outcome of the export reported by a callback", out[e.i], "ok")
    /\ Exp("callbacks of a rank for one export", cbs[e.i][e.r], 0)
    /\ cbs' = [cbs EXCEPT ![e.i] = [@ EXCEPT ![e.r] = 1]]
    \* An export that waits for the one in flight reports that one first.
    /\ pend' = [pend EXCEPT ![e.r] = 0]
    /\ UNCHANGED <<at, ended, run, out, jobs, res, late>>
\* A call returns: what it waited for is over and was reported.
Over(i, r) ==
    /\ Chk("export still running when a call that waits for it returns", Reported(i))
    /\ Exp("callbacks when the export is reported", cbs[i][r], IF out[i] = "ok" THEN 1 ELSE 0)
Before(r) == \* the export in flight when the call was made
    LET js == {j \in Exports : j < at[r]} IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : k <= j
\* Polls of this rank since then that reported it.
Gone(j, r) == \E k \in (j + 1)..(at[r] - 1) : res[k] = "true"
Ret(e) ==
    LET r == e.r c == Plan[e.i] j == Before(r)
        flying == IF j = 0 \/ Plan[j] = "xb" \/ Gone(j, r) THEN 0 ELSE j IN
    /\ Exp("call that returns", e.i, at[r])
    /\ Inside(r)
    /\ IF c \in {"xa", "xb"} THEN
         /\ Exp("result of an export", e.res, "none")
         /\ flying # 0 => Over(flying, r)
         /\ c = "xb" => Over(e.i, r)
       ELSE IF flying = 0 THEN Exp("result of a poll with nothing in flight", e.res, "none")
       ELSE /\ Chk("result of a poll", e.res \in {"true", "false"})
            /\ (c = "pb" => Exp("result of a poll that waits", e.res, "true"))
            /\ (r = 1 /\ late[1] => Exp("result of a poll when the export was over", e.res, "true"))
            /\ (e.res = "true" => Over(flying, r))
            /\ (e.res = "false" => Exp("callbacks when nothing is reported", cbs[flying][r], 0))
    /\ res[e.i] # "none yet" => Exp("result of a call on rank " \o ToString(r), e.res, res[e.i])
    /\ LET now == IF c = "xa" THEN e.i ELSE IF c = "xb" \/ flying = 0 \/ e.res = "true" THEN 0 ELSE flying IN
       /\ Exp("exporting", e.busy, now # 0)
       /\ pend' = [pend EXCEPT ![r] = now]
    /\ res' = [res EXCEPT ![e.i] = e.res]
    /\ ended' = [ended EXCEPT ![r] = e.i]
    /\ UNCHANGED <<at, run, out, jobs, cbs, late>>
\* The end of the history, after a last poll that waits.
Quit(e) ==
    /\ Exp("calls made", ended, [r \in Ranks |-> Len(Plan)])
    /\ Exp("exports reported", {i \in Exports : ~Reported(i)}, {})
    /\ \A i \in Exports : Exp("callbacks of an export at the end", cbs[i], [r \in Ranks |-> IF out[i] = "ok" THEN 1 ELSE 0])
    /\ Exp("exports whose command and output files are right", e.files, Cardinality(Exports))
    /\ UNCHANGED vars
Step ==
    LET e == Ev IN
    CASE e.op = "call" -> Call(e)
      [] e.op = "start" -> Start(e)
      [] e.op = "end" -> End(e)
      [] e.op = "job" -> Job(e)
      [] e.op = "cb" -> Callback(e)
      [] e.op = "ret" -> Ret(e)
      [] e.op = "quit" -> Quit(e)
      [] e.op = "error" -> Chk(e.what, FALSE) /\ UNCHANGED vars
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<vars, tid, l>>
=============================================================================
