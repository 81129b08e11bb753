----------------------------- MODULE AssetCache -----------------------------
(* What the download cache promises for one asset, whatever it does inside.    *)
(*                                                                             *)
(* c: what may be cached ("-": nothing that counts); pend: versions that were  *)
(* received before an interruption but may not have been put in place; bad:    *)
(* an archive that cannot be extracted may be among what was received.         *)
(* A request r is forced, local or neither; sv is what the server would do:    *)
(* serve version v ("ok"), fail ("fail"), serve a useless archive ("bad");     *)
(* hits: how often it was asked.                                               *)
EXTENDS Integers, FiniteSets
None == "-"
Fresh == [c |-> {None}, pend |-> {}, bad |-> FALSE]
Allowed(s, r, sv, ok, v, hits) ==
    IF r = "local" THEN hits = 0 /\ (IF ok THEN v \in s.c \ {None} ELSE None \in s.c)
    ELSE IF ok THEN
        \/ r = "plain" /\ hits = 0 /\ v \in s.c \ {None}
        \/ r = "plain" /\ hits = 0 /\ None \in s.c /\ v \in s.pend
        \/ hits > 0 /\ sv.m = "ok" /\ v = sv.v /\ (r = "force" \/ None \in s.c)
    ELSE \/ sv.m # "ok" /\ (r = "force" \/ None \in s.c)
         \/ r = "plain" /\ hits = 0 /\ None \in s.c /\ s.bad
After(s, r, sv, ok, v, hits) ==
    IF ok THEN [c |-> {v}, pend |-> IF r = "local" THEN s.pend ELSE {}, bad |-> s.bad /\ r = "local"]
    ELSE IF r = "local" THEN [s EXCEPT !.c = {None}]
    ELSE [c |-> {None}, pend |-> IF r = "plain" /\ hits = 0 THEN s.pend ELSE {},
          bad |-> (r = "plain" /\ s.bad /\ hits = 0) \/ (sv.m = "bad" /\ hits > 0)]
Crashed(s, r, sv, hits) ==
    IF r = "local" \/ (r = "plain" /\ None \notin s.c) THEN s
    ELSE [c |-> s.c \cup {None} \cup (IF sv.m = "ok" /\ hits > 0 THEN {sv.v} ELSE {}) \cup s.pend,
          pend |-> s.pend \cup (IF sv.m = "ok" /\ hits > 0 THEN {sv.v} ELSE {}),
          bad |-> s.bad \/ (sv.m = "bad" /\ hits > 0)]
=============================================================================
