--------------------------- MODULE MetricBagTrace ---------------------------
(* Recorded histories of a real bag; each event carries the values of all      *)
(* metrics right after it.                                                     *)
EXTENDS MetricBag, Batch
VARIABLE x
vars == <<tid, l, x>>

Ok(y) == [res |-> "ok", x |-> y]
No(e) == [res |-> e, x |-> x]
After(e) ==
    CASE e.a = "add" -> IF CanAdd(x, e.n) THEN Ok(Add(x, e.n, e.k)) ELSE No("ValueError")
      [] e.a = "upd" -> Ok(Update(x, e.n, e.v, e.w))
      [] e.a = "begin" -> IF x.orig = <<>> THEN Ok(Begin(x)) ELSE No("InvalidOperationError")
      [] e.a = "commit" -> IF x.orig # <<>> THEN Ok(Commit(x)) ELSE No("InvalidOperationError")
      [] e.a = "rollback" -> IF x.orig # <<>> THEN Ok(Rollback(x)) ELSE No("InvalidOperationError")
      [] e.a = "reset" -> Ok(Reset(x))
      [] e.a = "save" -> Ok(Save(x))
      [] e.a = "load" -> Ok(Load(x, e.i))
      [] e.a = "missing" -> No("ValueError")
      [] e.a = "badkind" -> No("TypeError")
      [] e.a = "badstate" -> No("StateDictError")
      [] OTHER -> No("no such event")
Step ==
    LET e == Ev r == After(e) y == r.x IN
    /\ Exp("outcome", e.res, r.res)
    /\ Exp("metrics in the bag", {e.view[i].n : i \in 1..Len(e.view)}, DOMAIN y.cur)
    /\ Exp("number of metrics", Len(e.view), Cardinality(DOMAIN y.cur))
    /\ \A i \in 1..Len(e.view) :
         LET m == y.cur[e.view[i].n] IN
         /\ Exp("kind of " \o e.view[i].n, e.view[i].k, m.k)
         /\ Chk("value of " \o e.view[i].n \o ": got " \o ToString(e.view[i].v) \o " for " \o ToString(m), IsValue(m, e.view[i].v))
    /\ x' = y

Init == BatchInit /\ x = InitX
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
