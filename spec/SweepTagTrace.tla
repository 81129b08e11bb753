----------------------------- MODULE SweepTagTrace -----------------------------
(* Tags made by the real code.                                                   *)
EXTENDS SweepTag, Batch
vars == <<tid, l>>
Step ==
    LET e == Ev IN
    CASE e.op = "pair" ->
           /\ Exp("errors", e.err, "")
           /\ LET want == SameTag(e.a, e.wa, e.b, e.wb) IN
              Chk((IF want THEN "equal configurations have different tags (" ELSE "different configurations share a tag (") \o e.how \o "): " \o ToJson(e.a) \o " and " \o ToJson(e.b) \o ", world sizes " \o ToString(e.wa) \o " and " \o ToString(e.wb),
                  e.same = want)
      [] e.op = "format" ->
           LET keys == [k \in {e.keys[i][1] : i \in 1..Len(e.keys)} |-> e.keys[CHOOSE i \in 1..Len(e.keys) : e.keys[i][1] = k][2]]
               want == Parse(e.s, keys) IN
           /\ Exp("outcome of the format " \o ToJson(e.s), e.out, IF want.ok THEN "ok" ELSE "refused")
           /\ want.ok => Exp("tag of the format " \o ToJson(e.s), e.q, want.q)
Init == BatchInit
Next == BatchMore /\ Step /\ BatchStep
Spec == Init /\ [][Next]_vars
===============================================================================
