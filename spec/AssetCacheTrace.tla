--------------------------- MODULE AssetCacheTrace ---------------------------
(* Requests to a real download manager, some of them killed on the way; each   *)
(* key of the cache is an asset of its own.                                    *)
EXTENDS AssetCache, Batch
VARIABLE s
vars == <<tid, l, s>>
Step ==
    LET e == Ev
        t == s[e.k]
        what == e.r \o " request for " \o e.k \o " (" \o e.how \o ")" IN
    /\ Chk(what \o ": wrote to " \o e.outside, e.outside = "")
    /\ Exp(what \o ": requests for other assets", e.strays, 0)
    /\ CASE e.out = "crash" -> s' = [s EXCEPT ![e.k] = Crashed(t, e.r, e.sv, e.hits)]
         [] e.out \in {"ok", "fail"} ->
              /\ Chk(what \o ": " \o e.out \o " with " \o e.v \o " after asking " \o ToString(e.hits) \o " times; may be cached "
                     \o ToJson(t), Allowed(t, e.r, e.sv, e.out = "ok", e.v, e.hits))
              /\ s' = [s EXCEPT ![e.k] = After(t, e.r, e.sv, e.out = "ok", e.v, e.hits)]
         [] OTHER -> Rej(what \o ": " \o e.out) /\ FALSE /\ UNCHANGED s
Init == BatchInit /\ s = [k \in {"A", "B"} |-> Fresh]
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
